"""S03: path-wise Euler-Maruyama consumes exactly the given increments."""
from jxv.harness import *
from contracts.common import *


def contracts():
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise
    args = [Arg("w", ("N", "m")), Arg("x0", ("d",)), Arg("h", (), "pos")]
    ufs = {"f": ("d",), "g": ("d", "m")}

    def mk(std, kw):
        def code(U, D, w, x0, h):
            ts, xs = euler_maruyama_pathwise(w, x0, U.f, U.g, h, D.N, **kw)
            return ts, xs, w

        def rel(U, D, a, o):
            ts, xs, w = o
            h = a["h"]
            t = grid(D.N, h)
            s = h ** 0.5 if std else 1.0
            nx = jax.vmap(lambda x, t, dw: x + h * U.f(x, t) + U.g(x, t) @ (s * dw))(xs[:-1], t[:-1], a["w"])
            return {"time grid": Eq(ts, t), "start": Eq(xs[0], a["x0"]), "step": Eq(xs[1:], nx),
                    "caller's increments unchanged": Eq(w, a["w"])}
        return code, rel

    inst = [dict(d=1, m=1, N=3), dict(d=2, m=1, N=3), dict(d=2, m=3, N=2)]
    num = inst + [dict(d=3, m=2, N=1), dict(d=2, m=2, N=23), dict(d=1, m=1, N=1200)]
    fn = ["sde_solvers.euler_maruyama_pathwise"]
    out = []
    for name, std, kw in (("default", False, {}), ("standard=False", False, dict(standard=False)),
                          ("standard=True", True, dict(standard=True))):
        code, rel = mk(std, kw)
        out.append(Contract(f"pathwise {name}", fn, code, rel, args, ufs, ["d", "m", "N"], inst, num, samples=8))
    return out
