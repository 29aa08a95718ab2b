"""S11: the square-root form of the filter step computes the same posterior."""
from jxv.harness import *
from contracts.common import *
from contracts.filt import *


def contracts():
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    args = [Arg("m", ("n",)), Arg("L", ("n", "n")), Arg("A", ("n", "n")), Arg("W", ("n", "n")),
            Arg("xi", ("n",)), Arg("V", ("p", "p")), Arg("t")]
    ufs = {"O": ("p",)}
    num = [dict(n=1, p=1), dict(n=2, p=1), dict(n=4, p=2), dict(n=3, p=3), dict(n=2, p=3)]

    def one(U, D, m, L, A, W, xi, V, t):
        ts = jnp.reshape(jnp.asarray(t), (1,))
        a = ekf(init=(m, L), observation_function=U.O, A=A, Q_or_cholQ=W, xi=xi, R_or_cholR=V, params=(ts,),
                lower_sqrt=True)
        b = ekf(init=(m, L), observation_function=U.O, A=A, Q_or_cholQ=W, xi=xi, R_or_cholR=V, params=(ts,),
                lower_sqrt=True, return_UC=True)
        return a, b

    def rel(U, D, a, o):
        (m1, L1), ((m2, L2), S2, c2) = o
        sq = lambda X: X @ X.T
        m, P, S, c = ref_step(U.O, a["m"], sq(a["L"]), a["A"], sq(a["W"]), a["xi"], sq(a["V"]), a["t"])
        return {"mean": Eq(m1, m, 1e-6), "covariance": Eq(sq(L1), P, 1e-6), "mean (with S, z)": Eq(m2, m, 1e-6),
                "covariance (with S, z)": Eq(sq(L2), P, 1e-6), "factor lower triangular": Eq(L1, jnp.tril(L1)),
                "innovation covariance": Eq(S2, S, 1e-6), "innovation": Eq(c2, c)}

    return [Contract("square-root filter step", ["probnum.ekf", "probnum.predict", "probnum.update", "probnum.tria"],
                     one, rel, args, ufs, ["n", "p"], [], num, samples=16)]
