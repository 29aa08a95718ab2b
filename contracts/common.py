from jxv.harness import *


def grid(N, h, first=0):
    """(first*h, (first+1)*h, ..., )  N+1 points."""
    return h * (jnp.arange(N + 1).astype(f64) + first)
