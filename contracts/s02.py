"""S02: Euler-Maruyama: grid, start, step law, independence of the steps."""
from jxv.harness import *
from contracts.common import *


def contracts():
    from bayesian_sde_solver.sde_solvers import euler_maruyama
    args = [Arg("key", (), "key"), Arg("x0", ("d",)), Arg("h", (), "pos")]
    ufs = {"f": ("d",), "g": ("d", "m")}

    def code(U, D, key, x0, h):
        return euler_maruyama(key, x0, U.f, U.g, h, D.N)

    def rel(U, D, a, o):
        ts, xs = o
        x0, h = a["x0"], a["h"]
        t = grid(D.N, h)
        x = xs[:-1]
        mean = jax.vmap(lambda x, t: x + h * U.f(x, t))(x, t[:-1])
        cov = jax.vmap(lambda x, t: h * U.g(x, t) @ U.g(x, t).T)(x, t[:-1])
        return {"time grid": Eq(ts, t), "start": Eq(xs[0], x0), "step law": Law(xs[1:], mean, cov, batch=1)}

    def det(U, D, key, x0, h):
        """With g = 0 the scheme is the deterministic Euler recursion."""
        return euler_maruyama(key, x0, U.f, lambda x, t: jnp.zeros((D.d, D.m)), h, D.N)

    def detrel(U, D, a, o):
        ts, xs = o
        h = a["h"]
        return {"noise-free step": Eq(xs[1:], jax.vmap(lambda x, t: x + h * U.f(x, t))(xs[:-1], grid(D.N, h)[:-1]))}

    inst = [dict(d=1, m=1, N=3), dict(d=2, m=1, N=3), dict(d=2, m=3, N=2)]
    num = inst + [dict(d=3, m=3, N=1), dict(d=2, m=2, N=23, nolaw=1), dict(d=1, m=1, N=1200, nolaw=1)]
    fn = ["sde_solvers.euler_maruyama"]
    return [Contract("euler-maruyama", fn, code, rel, args, ufs, ["d", "m", "N"], inst, num, law=True, samples=12),
            Contract("euler-maruyama noise-free", fn, det, detrel, args, ufs, ["d", "m", "N"], inst, inst, samples=6)]
