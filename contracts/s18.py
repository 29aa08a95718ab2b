"""S18: padding a prior and combining independent priors."""
from jxv.harness import *
from contracts.common import *


def contracts():
    from bayesian_sde_solver.ode_solvers.probnum import pad_prior, get_independently_factorized_prior

    def tr(i, n):
        return [Arg(f"xi{i}", (n,)), Arg(f"Q{i}", (n, n)), Arg(f"A{i}", (n, n))]

    def code(U, D, xi0, Q0, A0):
        return pad_prior((xi0, Q0, A0), D.n + D.e - 1)

    def emb(X, n, N):
        i = jnp.arange(N)
        if X.ndim == 1:
            return jnp.where(i < n, X[jnp.clip(i, 0, n - 1)], 0.0)
        c = jnp.clip(i, 0, n - 1)
        return jnp.where((i[:, None] < n) & (i[None, :] < n), X[c][:, c], 0.0)

    def rel(U, D, a, o):
        N = D.n + D.e
        return {k: Eq(x, emb(a[k + "0"], D.n, N)) for k, x in zip(("xi", "Q", "A"), o)}

    num = [dict(n=1, e=1), dict(n=2, e=1), dict(n=3, e=2), dict(n=2, e=5)]
    out = [Contract("pad", ["probnum.pad_prior"], code, rel, tr(0, "n"), {}, ["n", "e"], num[:3], num, samples=8, loops=())]

    for L in (1, 2, 3, 4):
        ns = [f"n{i}" for i in range(L)]

        def codeL(U, D, L=L, **kw):
            return get_independently_factorized_prior(tuple((kw[f"xi{i}"], kw[f"Q{i}"], kw[f"A{i}"]) for i in range(L)))

        def relL(U, D, a, o, L=L):
            xi, Q, A = o
            r = {}
            off = [0]
            for i in range(L):
                off.append(off[-1] + getattr(D, f"n{i}"))
            for i in range(L):
                s = slice(off[i], off[i + 1])
                r[f"offset of component {i}"] = Eq(xi[s], a[f"xi{i}"])
                for j in range(L):
                    t = slice(off[j], off[j + 1])
                    z = jnp.zeros((getattr(D, f"n{i}"), getattr(D, f"n{j}")))
                    r[f"covariance block {i},{j}"] = Eq(Q[s, t], a[f"Q{i}"] if i == j else z)
                    r[f"transition block {i},{j}"] = Eq(A[s, t], a[f"A{i}"] if i == j else z)
            r["sizes"] = Eq((xi, Q, A), (xi[:off[-1]], Q[:off[-1], :off[-1]], A[:off[-1], :off[-1]]))
            return r
        args = [x for i in range(L) for x in tr(i, f"n{i}")]
        num = [dict(zip(ns, s)) for s in ([1, 1, 1, 1], [2, 1, 3, 2], [3, 2, 2, 1])]
        out.append(Contract(f"product of {L}", ["probnum.get_independently_factorized_prior"], codeL, relL, args, {}, ns,
                            num[:2], num, samples=6, loops=(), note="list length 1..4, every block size"))
    for r in (1, 2, 3, None):
        out.append(many(get_independently_factorized_prior, r))
    return out


def many(f, r):
    """Any number of transitions of r states each (None: of any number >= 4 of states)."""
    from jxv.symseq import make_list
    n = "s" if r is None else r
    size = lambda D: D.s if r is None else r

    def code(U, D, xi, Q, A):
        return f(make_list(D.L, lambda i: (xi[i], Q[i], A[i])))

    def rel(U, D, a, o):
        i = jnp.arange(D.L)
        same = i[:, None, None, None] == i[None, None, :, None]
        L, k = D.L, size(D)
        emb = lambda B: jnp.where(same, B[:, :, None, :], 0.0).reshape((L * k, L * k))
        return {"offset": Eq(o[0], a["xi"].reshape((L * k,))), "covariance": Eq(o[1], emb(a["Q"])), "transition": Eq(o[2], emb(a["A"]))}
    num = [dict(L=1), dict(L=2), dict(L=5), dict(L=7)]
    if r is None:
        num = [dict(v, s=s) for v, s in zip(num, (5, 4, 4, 6))]
    return Contract(f"any number of transitions of {r or 'any number of'} states", ["probnum.get_independently_factorized_prior"], code, rel,
                    [Arg("xi", ("L", n)), Arg("Q", ("L", n, n)), Arg("A", ("L", n, n))], {}, ["L"] + ["s"] * (r is None), num[:2], num,
                    samples=6, loops=())
