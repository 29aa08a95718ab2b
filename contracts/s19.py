"""S19: interlacing."""
from jxv.harness import *
from contracts.common import *


def contracts():
    from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
    out = []
    for k in (1, 2, 3, 4, 5):
        args = [Arg(f"x{j}", ("d",)) for j in range(k)]

        def code(U, D, k=k, **kw):
            return interlace(tuple(kw[f"x{j}"] for j in range(k)))

        def rel(U, D, a, o, k=k):
            return {f"entry i*{k}+{j}": Eq(o[j::k], a[f"x{j}"]) for j in range(k)}
        num = [dict(d=1), dict(d=2), dict(d=3), dict(d=5)]
        out.append(Contract(f"interlace {k}", ["probnum.interlace"], code, rel, args, {}, ["d"], num, num, samples=4, loops=(),
                            note="1..5 vectors, every dimension"))

    for d in (1, 2, 3, None):
        out.append(many(interlace, d))

    args = [Arg(n, ("d", "d")) for n in ("V", "W", "X", "Y")]

    def code(U, D, V, W, X, Y):
        return interlace_matrix(V, W, X, Y)

    def rel(U, D, a, o):
        return {"00 entries": Eq(o[::2, ::2], a["V"]), "01 entries": Eq(o[::2, 1::2], a["W"]),
                "10 entries": Eq(o[1::2, ::2], a["X"]), "11 entries": Eq(o[1::2, 1::2], a["Y"]),
                "size": Eq(o, o[:2 * D.d, :2 * D.d])}

    # the matrix of the interlaced vector: (x, y) -> interlace is the same permutation on both sides
    def codec(U, D, V, W, X, Y):
        u = interlace((V[0], V[1])) if False else None
        M = interlace_matrix(V[:, :1] @ V[:, :1].T, V[:, :1] @ W[:, :1].T, W[:, :1] @ V[:, :1].T, W[:, :1] @ W[:, :1].T)
        return M, interlace((V[:, 0], W[:, 0]))

    def relc(U, D, a, o):
        M, z = o
        return {"outer product of the interlaced vector": Eq(M, jnp.outer(z, z))}
    num = [dict(d=1), dict(d=2), dict(d=3), dict(d=5)]
    out.append(Contract("interlace matrix", ["probnum.interlace_matrix"], code, rel, args, {}, ["d"], num, num, samples=6, loops=()))
    out.append(Contract("interlaced covariance", ["probnum.interlace_matrix", "probnum.interlace"], codec, relc, args, {}, ["d"], num, num,
                        samples=6, loops=()))
    return out


def many(interlace, d):
    """Any number of vectors of length d (None: at least 4 vectors of any length)."""
    from jxv.symseq import make_list
    k, n = ("s", "d") if d is None else ("k", d)

    def code(U, D, X):
        return interlace(make_list(getattr(D, k), lambda j: X[j]))

    def rel(U, D, a, o):
        l = D.d if d is None else d
        return {"interlaced": Eq(o.reshape((l, getattr(D, k))), a["X"].T)}
    num = [{k: v} for v in (1, 2, 6, 9)]
    if d is None:
        num = [dict(s=s, d=e) for s, e in ((4, 2), (5, 3), (6, 1), (9, 4))]
    return Contract(f"interlace any number of vectors of {'any length' if d is None else f'length {d}'}", ["probnum.interlace"], code, rel,
                    [Arg("X", (k, n))], {}, [k] + ["d"] * (d is None), num[:2], num, samples=4, loops=())
