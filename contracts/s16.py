"""S16: Matern transition."""
from math import comb
from jxv.harness import *
from contracts.common import *
from contracts.filt import block_eye
from contracts.s17 import trapezoid


def companion(k, lam):
    """dX = F X dt + magnitude e_k dW whose output has spectral density ~ 1/(lam^2+w^2)^(k+1)."""
    rows = [[1.0 * (j == i + 1) + 0 * lam for j in range(k + 1)] for i in range(k)]
    rows.append([-comb(k + 1, i) * lam ** (k + 1 - i) for i in range(k + 1)])
    return jnp.stack([jnp.stack([jnp.asarray(v) for v in r]) for r in rows])


def contracts():
    from bayesian_sde_solver.ode_solvers.probnum import matern_transition_function as f
    out = []
    E = jax.scipy.linalg.expm
    fn = ["probnum.matern_transition_function", "probnum.transition_function"]
    args = [Arg("s"), Arg("l", (), "pos", lo=0.4, hi=4.0), Arg("h", (), "pos")]
    tr = lambda M: M.T

    # closed form k = 1: characterised by its differential equations and initial values
    def code(U, D, s, l, h):
        one = lambda t: f(1, s, l, t, 1)
        return f(1, s, l, h, D.d), one(h), jax.jacfwd(one)(h), one(0.0)

    def rel(U, D, a, o):
        (m, Q, A), (m1, Q1, A1), (_, dQ, dA), (_, Q0, A0) = o
        d = D.d
        Fm = companion(1, jnp.sqrt(3.0) / a["l"])
        LL = jnp.array([[0., 0.], [0., 1.]]) * a["s"] ** 2
        blk = lambda B: jnp.where(jnp.arange(d)[:, None, None, None] == jnp.arange(d)[None, None, :, None], B[None, :, None, :], 0.0)
        return {"offset": Eq(m, jnp.zeros(2 * d)), "coordinates independent (transition)": Eq(A.reshape((d, 2, d, 2)), blk(A1)),
                "coordinates independent (covariance)": Eq(Q.reshape((d, 2, d, 2)), blk(Q1)),
                "dA/dt = F A": Eq(dA, Fm @ A1), "A(0) = I": Eq(A0, jnp.eye(2)),
                "dQ/dt = F Q + Q F' + L L'": Eq(dQ, Fm @ Q1 + Q1 @ Fm.T + LL, 1e-6), "Q(0) = 0": Eq(Q0, jnp.zeros((2, 2)))}
    num = [dict(d=1), dict(d=2), dict(d=3)]
    out.append(Contract("closed form k=1", fn, code, rel, args, {}, ["d"], num, num, samples=8, loops=()))

    def generic(k, mc):
        def code(U, D, s, l, h):
            return f(k, s, l, h, D.d, mc=mc)

        def rel(U, D, a, o):
            m, Q, A = o
            s, l, h = a["s"], a["l"], a["h"]
            Fm = companion(k, jnp.sqrt(2.0 * k + 1) / l)
            d, n = D.d, k + 1
            blk = lambda B: jnp.where(jnp.arange(d)[:, None, None, None] == jnp.arange(d)[None, None, :, None], B[None, :, None, :], 0.0)
            L = jnp.zeros((n,)).at[k].set(1.0) * s
            q = lambda r: jnp.outer(E(Fm * r) @ L, E(Fm * r) @ L)
            return {"offset": Eq(m, jnp.zeros(n * d)), "transition": Eq(A.reshape((d, n, d, n)), blk(E(Fm * h)), 1e-6),
                    "covariance": Eq(Q.reshape((d, n, d, n)), blk(trapezoid(q, h, 10000)), 1e-5)}
        out.append(Contract(f"generic k={k}" + (" (closed form off)" if mc else ""), fn, code, rel, args, {}, ["d"], num, num,
                            samples=5, loops=(), note="k <= 3, every dimension, length, magnitude, step"))
    generic(0, False)
    generic(1, True)
    generic(2, False)
    generic(3, False)

    for d in (1, 2):
        out.append(any_smoothness(f, fn, args, d))
    out.append(any_size(f, fn, args))

    # closed form and generic construction agree up to quadrature error
    def both(U, D, s, l, h):
        return f(1, s, l, h, 2), f(1, s, l, h, 2, mc=True)

    def brel(U, D, a, o):
        return {"closed form = generic": Eq(o[0], o[1], 1e-4)}
    out.append(Contract("agreement", fn, both, brel, args, {}, [], [], [{}], samples=8, prove=False, note="numerical (bounded)"))
    return out


def any_smoothness(f, fn, args, d):
    """Every k, for d coordinates (closed form off)."""
    from jxv.symseq import sym_comb
    E = jax.scipy.linalg.expm

    def code(U, D, s, l, h):
        return f(D.k, s, l, h, d, mc=True)

    def rel(U, D, a, o):
        m, Q, A = o
        k, s, l, h = D.k, a["s"], a["l"], a["h"]
        n = k + 1
        lam = jnp.sqrt(2.0 * k + 1) / l
        last = jax.vmap(lambda j: -sym_comb(k + 1, j) * lam ** (k + 1 - j))(jnp.arange(n))
        F = jnp.concatenate([jnp.concatenate([jnp.zeros((k, 1)), jnp.eye(k)], 1), last[None, :]], 0)
        L = jnp.concatenate([jnp.zeros(k), jnp.reshape(s, (1,))])
        A0 = E(F * h)
        Q0 = trapezoid(lambda r: jnp.outer(E(F * r) @ L, E(F * r) @ L), h, 10000)
        r = {}
        for u in range(d):
            r[f"offset block {u}"] = Eq(m[u * n:(u + 1) * n], jnp.zeros(n))
            for v in range(d):
                S, T = slice(u * n, (u + 1) * n), slice(v * n, (v + 1) * n)
                r[f"transition block {u},{v}"] = Eq(A[S, T], A0 if u == v else 0.0 * A0, 1e-6)
                r[f"covariance block {u},{v}"] = Eq(Q[S, T], Q0 if u == v else 0.0 * Q0, 1e-5)
        r["sizes"] = Eq((jnp.zeros(m.shape), jnp.zeros(Q.shape), jnp.zeros(A.shape)), (jnp.zeros(d * n),) + (jnp.zeros((d * n, d * n)),) * 2)
        return r
    num = [dict(k=k) for k in (1, 2, 4, 5)]
    return Contract(f"every smoothness, {d} coordinates", fn, code, rel, args, {}, ["k"], [dict(k=2)], num, samples=4, loops=(),
                    note="every k >= 1, length, magnitude, step")


def any_size(f, fn, args):
    """Every smoothness s - 1 >= 3 and every dimension."""
    from jxv.symseq import sym_comb
    E = jax.scipy.linalg.expm

    def code(U, D, s, l, h):
        return f(D.s - 1, s, l, h, D.d)

    def rel(U, D, a, o):
        m, Q, A = o
        n, d, s, l, h = D.s, D.d, a["s"], a["l"], a["h"]
        lam = jnp.sqrt(2.0 * (n - 1) + 1) / l
        i = jnp.arange(n)
        last = jax.vmap(lambda j: -sym_comb(n, j) * lam ** (n - j))(i)
        F = jnp.where(i[None, :] == i[:, None] + 1, 1.0, 0.0) + jnp.where(i[:, None] == n - 1, last[None, :], 0.0)
        L = jnp.where(i == n - 1, s, 0.0)
        return {"offset": Eq(m, jnp.zeros(d * n)), "transition": Eq(A, block_eye(d, E(F * h)), 1e-6),
                "covariance": Eq(Q, block_eye(d, trapezoid(lambda r: jnp.outer(E(F * r) @ L, E(F * r) @ L), h, 10000)), 1e-5)}
    num = [dict(s=s, d=d) for s, d in ((4, 2), (5, 1), (6, 2))]
    return Contract("every smoothness and dimension", fn, code, rel, args, {}, ["s", "d"], [dict(s=4, d=2)], num, samples=4, loops=(),
                    note="every k >= 3, dimension, length, magnitude, step")
