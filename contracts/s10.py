"""S10: the filter step is exact Gaussian conditioning (covariance form)."""
from jxv.harness import *
from contracts.common import *
from contracts.filt import *


def contracts():
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    args = [Arg("m", ("n",)), Arg("P", ("n", "n"), "psd"), Arg("A", ("n", "n")), Arg("Q", ("n", "n"), "psd"),
            Arg("xi", ("n",)), Arg("R", ("p", "p"), "psd"), Arg("t")]
    ufs = {"O": ("p",)}
    inst = [dict(n=1, p=1), dict(n=2, p=1)]
    num = [dict(n=1, p=1), dict(n=2, p=1), dict(n=4, p=2), dict(n=3, p=3), dict(n=2, p=3)]

    def one(U, D, m, P, A, Q, xi, R, t):
        ts = jnp.reshape(jnp.asarray(t), (1,))
        a = ekf(init=(m, P), observation_function=U.O, A=A, Q_or_cholQ=Q, xi=xi, R_or_cholR=R, params=(ts,))
        b = ekf(init=(m, P), observation_function=U.O, A=A, Q_or_cholQ=Q, xi=xi, R_or_cholR=R, params=(ts,),
                lower_sqrt=False, return_UC=True)
        return a, b

    def rel(U, D, a, o):
        (m1, P1), ((m2, P2), S2, c2) = o
        m, P, S, c = ref_step(U.O, a["m"], a["P"], a["A"], a["Q"], a["xi"], a["R"], a["t"])
        return {"mean": Eq(m1, m), "covariance": Eq(P1, P), "mean (with S, z)": Eq(m2, m), "covariance (with S, z)": Eq(P2, P),
                "innovation covariance": Eq(S2, S), "innovation": Eq(c2, c)}

    return [Contract("filter step", ["probnum.ekf", "probnum.predict", "probnum.update"], one, rel, args, ufs,
                     ["n", "p"], inst, num, samples=16)]
