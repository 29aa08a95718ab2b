"""S14: the continuing EKF0/EKF1 solvers: the Gaussian law carried from step to step."""
from jxv.harness import *
from jxv.front import gram
from contracts.common import *
from contracts.filt import *
from contracts.s15 import ibm


def contracts():
    from bayesian_sde_solver.ode_solvers.ekf0_2 import solver as ekf0_2
    from bayesian_sde_solver.ode_solvers.ekf1_2 import solver as ekf1_2
    return [carry(solver, zeroth, sqrt, key, given, all_)
            for zeroth, solver in ((True, ekf0_2), (False, ekf1_2)) for sqrt in (False, True)
            for key in (True, False) for given in (False, True) for all_ in (False, True)]


def joint_law(f, m, P, zeroth):
    """Law of (X, X') = (X, f(m,0) + J (X - m)) for X ~ N(m, P), coordinate-major."""
    d = m.shape[0]
    J = jnp.zeros((d, d)) if zeroth else jax.jacfwd(f, 0)(m, 0.0)
    V = jnp.stack([jnp.stack([P, P @ J.T], -1), jnp.stack([J @ P, J @ P @ J.T], -1)], 1)
    return jnp.stack([m, f(m, 0.0)], 1).reshape((2 * d,)), V.reshape((2 * d, 2 * d))


def carry(solver, zeroth, sqrt, withkey, given, all_):
    args = [Arg("s", ("d",)), Arg("m", ("d",)), Arg("P", ("d", "d"), "psd"), Arg("h", (), "pos"), Arg("z", ("d",)),
            Arg("t", ()), Arg("mo", ("2*d",)), Arg("Po", ("2*d", "2*d"), "real" if sqrt else "psd"),
            Arg("So", ("d", "d")), Arg("co", ("d",))]
    if withkey:
        args = [Arg("key", (), "key")] + args
    if given:
        args += [Arg("A", ("2*d", "2*d")), Arg("Q", ("2*d", "2*d"), "pd"), Arg("xi", ("2*d",)), Arg("R", ("d", "d"), "psd")]
    ode = Callee("ode_solvers.ekf", "_solver")

    def code(U, D, s, m, P, h, z, t, mo, Po, So, co, key=None, A=None, Q=None, xi=None, R=None):
        kw = dict(prior=(xi, Q, A), noise=R) if given else {}
        y, c = ode.run(lambda a: ((mo, Po), So, co) if all_ else (mo, Po),
                       lambda: solver(key, (s, m, P), U.f, h, D.N, sqrt=sqrt, return_all=all_, **kw))
        y = dict(zip(("state", "full"), y if all_ else (y,)))
        if c is None:
            return {"result": y}
        if (bool(c["sqrt"]), bool(c["EKF0"]), c["n_states"], bool(c["return_all"])) != (sqrt, zeroth, 2, all_):
            raise Unsupported("mode of the ODE filter")
        if c["N"] != D.N or (c["prior"] is None and c["noise"] is None) == given:
            raise Unsupported("arguments of the ODE filter")
        return {"result": y, "init": c["init"], "field": c["vector_field"](z, t), "h": c["h"],
                "prior": (c["prior"], c["noise"]) if given else None}

    def rel(U, D, a, o):
        m0, P0 = joint_law(U.f, a["m"], a["P"], zeroth)
        tol = 1e-5
        if given:
            A, Q, xi, R = a["A"], a["Q"], a["xi"], a["R"]
        if "init" not in o:
            if not given:
                A, Q = (block_eye(D.d, X) for X in ibm(1, 1.0, a["h"]))
                xi, R = jnp.zeros(2 * D.d), jnp.zeros((D.d, D.d))
            m, P, S, c = ode_filter(U.f, m0, P0, A, Q, xi, R, a["h"], D.N, 2, zeroth)
            r = {}
        else:
            r = {"initial mean": Eq(o["init"][0], m0), "vector field": Eq(o["field"], U.f(a["z"], a["t"])),
                 "initial covariance": Eq(gram(o["init"][1]) if sqrt else o["init"][1], P0), "step": Eq(o["h"], a["h"])}
            if given:
                r["prior and noise"] = Eq(o["prior"], ((xi, Q, A), R))
            m, P, S, c = a["mo"], gram(a["Po"]) if sqrt else a["Po"], a["So"], a["co"]
        y = o["result"]["state"]
        r["mean"], r["covariance"] = Eq(y[1], m[::2], tol), Eq(y[2], P[::2, ::2], tol)
        if withkey:
            r["draw"] = Law(y[0], m[::2], P[::2, ::2])
        else:
            r["mean instead of a draw"] = Eq(y[0], m[::2], tol)
        if all_:
            x = o["result"]["full"]
            r["full mean"], r["full covariance"] = Eq(x[1], m, tol), Eq(x[2], P, tol)
            r["innovation covariance"], r["innovation"] = Eq(x[3], S, tol), Eq(x[4], c, tol)
            r["same draw"] = Eq(x[0][::2], y[0], tol)
            if withkey:
                r["full draw"] = Law(x[0], m, P)
            else:
                r["full mean instead of a draw"] = Eq(x[0], m, tol)
        return r
    k = "0" if zeroth else "1"
    name = (f"EKF{k} continuing{' sqrt' if sqrt else ''}{', given prior and noise' if given else ''}"
            f"{', innovations' if all_ else ''}{', draw' if withkey else ', mean'}")
    num = [dict(d=2, N=2), dict(d=1, N=3)]
    return Contract(name, [f"ode_solvers.ekf{k}_2.solver"], code, rel, args, {"f": ("d",)}, ["d", "N"],
                    [dict(d=1, N=2), dict(d=2, N=2)], num, stubs=ode.stubs, samples=6, law=withkey)
