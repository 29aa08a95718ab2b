"""S05: hypoelliptic order-1.5 scheme: local mean and leading-order covariance."""
from jxv.harness import *
from contracts.common import *


def contracts():
    from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme as solver
    args = [Arg("key", (), "key"), Arg("x0", ("r+1",)), Arg("h", (), "pos")]
    ufs = {"f": ("r+1",), "g": ("r", "m")}

    def sigma(U, D):
        return lambda x: jnp.concatenate([jnp.zeros((1, D.m)), U.g(x)])

    def code(U, D, key, x0, h):
        return solver(key, x0, U.f, sigma(U, D), h, D.N)

    def rel(U, D, a, o):
        ts, xs = o
        h, s = a["h"], sigma(U, D)

        def mean(x):
            S = s(x) @ s(x).T
            J = jax.jacfwd(U.f)(x)
            H = jax.jacfwd(jax.jacfwd(U.f))(x)
            return x + h * U.f(x) + h ** 2 / 2 * (J @ U.f(x) + 0.5 * jnp.einsum("kij,ij->k", H, S))

        def cov(x):
            G = U.g(x) @ U.g(x).T
            v = jax.jacfwd(lambda z: U.f(z)[0])(x)[1:]
            c = h ** 2 / 2 * (v @ G)
            top = jnp.concatenate([(h ** 3 / 3 * (v @ G @ v))[None], c])[None]
            return jnp.concatenate([top, jnp.concatenate([c[:, None], h * G], 1)])
        x = xs[:-1]
        return {"time grid": Eq(ts, grid(D.N, h)), "start": Eq(xs[0], a["x0"]),
                "step law": Law(xs[1:], jax.vmap(mean)(x), jax.vmap(cov)(x), batch=1)}

    inst = [dict(r=1, m=1, N=2), dict(r=2, m=1, N=2)]
    num = [dict(r=1, m=1, N=3), dict(r=2, m=2, N=2), dict(r=1, m=2, N=2), dict(r=3, m=1, N=1)]
    return [Contract("hypoelliptic step", ["sde_solvers.hypoelliptic_diffusion_15_scheme"], code, rel, args, ufs,
                     ["r", "m", "N"], inst, num, law=True, samples=6)]
