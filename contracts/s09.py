"""S09: explicit Euler ODE solver."""
from jxv.harness import *
from contracts.common import *


def contracts():
    from bayesian_sde_solver.ode_solvers import euler
    args = [Arg("x0", ("d",)), Arg("h", (), "pos")]
    ufs = {"f": ("d",)}

    def code(U, D, x0, h):
        return euler(init=x0, vector_field=U.f, h=h, N=D.N)

    def rel(U, D, a, o):
        h = a["h"]
        step = lambda x, k: (x + h * U.f(x, k * h), None)
        y, _ = jax.lax.scan(step, a["x0"], jnp.arange(D.N).astype(f64))
        return {"final value": Eq(o, y)}

    inst = [dict(d=1, N=1), dict(d=2, N=3), dict(d=3, N=5)]
    num = inst + [dict(d=2, N=40), dict(d=1, N=1001)]
    return [Contract("euler", ["ode_solvers.euler"], code, rel, args, ufs, ["d", "N"], inst, num, samples=10)]
