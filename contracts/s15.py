"""S15: integrated Brownian motion prior."""
from math import factorial
from jxv.harness import *
from contracts.common import *
from contracts.filt import block_eye


def ibm(q, sigma, h):
    A = [[h ** (j - i) / factorial(j - i) if j >= i else 0.0 * h for j in range(q + 1)] for i in range(q + 1)]
    Q = [[sigma ** 2 * h ** (2 * q + 1 - i - j) / ((2 * q + 1 - i - j) * factorial(q - i) * factorial(q - j))
          for j in range(q + 1)] for i in range(q + 1)]
    m = lambda X: jnp.stack([jnp.stack([jnp.asarray(y) * 1.0 for y in x]) for x in X])
    return m(A), m(Q)


def ibm_any(q, sigma, h):
    """The same for a number of derivatives that may be a symbolic size."""
    from jxv.symseq import sym_factorial as fac

    def entry(i, j):
        p, r = q - i, q - j
        return (jnp.where(j >= i, h ** (j - i) / fac(j - i), 0.0), sigma ** 2 * h ** (p + r + 1) / ((p + r + 1) * fac(p) * fac(r)))
    n = jnp.arange(q + 1)
    return jax.vmap(lambda i: jax.vmap(lambda j: entry(i, j))(n))(n)


def contracts():
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as f
    out = []
    for q in (1, 2, 3, 4, 5):
        args = [Arg("h", (), "pos"), Arg("g", (), "pos"), Arg("s")]

        def code(U, D, h, g, s, q=q):
            return f(0.0, s, q, h, D.d), f(0.0, s, q, h, 1), f(0.0, s, q, g, 1), f(0.0, s, q, h + g, 1)

        def rel(U, D, a, o, q=q):
            (m, Q, A), (m1, Q1, A1), (m2, Q2, A2), (m3, Q3, A3) = o
            A0, Q0 = ibm(q, a["s"], a["h"])
            n = q + 1
            d = D.d
            blk = lambda X, B: jnp.where(jnp.arange(d)[:, None, None, None] == jnp.arange(d)[None, None, :, None], B[None, :, None, :], 0.0)
            return {"offset": Eq(m, jnp.zeros(d * n)),
                    "transition": Eq(A.reshape((d, n, d, n)), blk(A, A0)),
                    "covariance": Eq(Q.reshape((d, n, d, n)), blk(Q, Q0)),
                    "semigroup transition": Eq(A2 @ A1, A3), "semigroup covariance": Eq(A2 @ Q1 @ A2.T + Q2, Q3),
                    "semigroup offset": Eq(A2 @ m1 + m2, m3)}
        num = [dict(d=1), dict(d=2), dict(d=3), dict(d=4)]
        out.append(Contract(f"integrated Brownian motion q={q}", ["probnum.IOUP_transition_function"], code, rel, args, {}, ["d"],
                            num[:3], num, samples=8, loops=(), note="q = 1..5, every dimension, step and intensity"))
    for d in (1, 2, 3):
        out.append(any_order(f, d))
    out.append(any_size(f))
    for q in (1, 2, 3, 4):
        out.append(mean_reverting(f, q))
    out.append(mean_reverting_any(f))
    return out


def any_order(f, d):
    """Every q, for d coordinates."""

    def code(U, D, h, s):
        return f(0.0, s, D.q, h, d)

    def rel(U, D, a, o):
        m, Q, A = o
        q, h, s = D.q, a["h"], a["s"]
        n = q + 1

        A0, Q0 = ibm_any(q, s, h)
        r = {"offset": Eq(m, jnp.zeros(d * n))}
        for u in range(d):
            for v in range(d):
                S, T = slice(u * n, (u + 1) * n), slice(v * n, (v + 1) * n)
                r[f"transition block {u},{v}"] = Eq(A[S, T], A0 if u == v else 0.0 * A0)
                r[f"covariance block {u},{v}"] = Eq(Q[S, T], Q0 if u == v else 0.0 * Q0)
        r["sizes"] = Eq((jnp.zeros(Q.shape), jnp.zeros(A.shape)), (jnp.zeros((d * n, d * n)),) * 2)
        return r
    num = [dict(q=q) for q in (1, 2, 4, 6, 8, 10)]
    return Contract(f"integrated Brownian motion, {d} coordinates", ["probnum.IOUP_transition_function"], code, rel,
                    [Arg("h", (), "pos"), Arg("s")], {}, ["q"], [dict(q=2)], num, samples=12, loops=(),
                    note="every number of derivatives q, step and intensity")


def any_size(f):
    """Every dimension and every number s - 1 >= 3 of derivatives."""
    def code(U, D, h, s):
        return f(0.0, s, D.s - 1, h, D.d)

    def rel(U, D, a, o):
        m, Q, A = o
        A0, Q0 = ibm_any(D.s - 1, a["s"], a["h"])
        return {"offset": Eq(m, jnp.zeros(D.d * D.s)), "transition": Eq(A, block_eye(D.d, A0)), "covariance": Eq(Q, block_eye(D.d, Q0))}
    num = [dict(s=s, d=d) for s, d in ((4, 3), (5, 2), (7, 4), (9, 1), (11, 2))]
    return Contract("integrated Brownian motion, every size", ["probnum.IOUP_transition_function"], code, rel,
                    [Arg("h", (), "pos"), Arg("s")], {}, ["s", "d"], [dict(s=4, d=2)], num, samples=12, loops=(),
                    note="every dimension, number of derivatives >= 3, step and intensity")


def mean_reverting(f, q):
    """Any mean reversion: exact transition matrix, leading-order covariance, no offset."""
    n = q + 1

    def code(U, D, h, s, th):
        return f(th, s, q, h, D.d)

    def rel(U, D, a, o):
        m, Q, A = o
        d = D.d
        F = jnp.zeros((n, n)).at[jnp.arange(q), jnp.arange(1, n)].set(1.0).at[q, q].set(-a["th"])
        blk = lambda B: jnp.where(jnp.arange(d)[:, None, None, None] == jnp.arange(d)[None, None, :, None], B[None, :, None, :], 0.0)
        return {"offset": Eq(m, jnp.zeros(d * n)),
                "transition": Eq(A.reshape((d, n, d, n)), blk(jax.scipy.linalg.expm(F * a["h"]))),
                "covariance": Eq(Q.reshape((d, n, d, n)), blk(ibm(q, a["s"], a["h"])[1]))}
    num = [dict(d=1), dict(d=2), dict(d=3)]
    return Contract(f"mean-reverting prior q={q}", ["probnum.IOUP_transition_function"], code, rel,
                    [Arg("h", (), "pos"), Arg("s"), Arg("th", (), "pos")], {}, ["d"], num[:2], num, samples=8, loops=())


def mean_reverting_any(f):
    """The same for every number s - 1 >= 3 of derivatives."""
    def code(U, D, h, s, th):
        return f(th, s, D.s - 1, h, D.d)

    def rel(U, D, a, o):
        m, Q, A = o
        n, d = D.s, D.d
        i = jnp.arange(n)
        F = jnp.where(i[None, :] == i[:, None] + 1, 1.0, 0.0) - jnp.where((i[:, None] == n - 1) & (i[None, :] == n - 1), a["th"], 0.0)
        return {"offset": Eq(m, jnp.zeros(d * n)), "transition": Eq(A, block_eye(d, jax.scipy.linalg.expm(F * a["h"]))),
                "covariance": Eq(Q, block_eye(d, ibm_any(n - 1, a["s"], a["h"])[1]))}
    num = [dict(s=s, d=d) for s, d in ((4, 3), (5, 2), (7, 1), (9, 2))]
    return Contract("mean-reverting prior, every size", ["probnum.IOUP_transition_function"], code, rel,
                    [Arg("h", (), "pos"), Arg("s"), Arg("th", (), "pos")], {}, ["s", "d"], [dict(s=4, d=2)], num, samples=8, loops=())
