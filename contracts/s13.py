"""S13: the restarting EKF0/EKF1 solvers: exact initial derivatives, then a draw from the filter posterior."""
from jxv.harness import *
from jxv.front import gram
from contracts.common import *
from contracts.filt import *
from contracts.s15 import ibm


def contracts():
    from bayesian_sde_solver.ode_solvers.ekf0 import solver as ekf0
    from bayesian_sde_solver.ode_solvers.ekf1 import solver as ekf1
    out = []
    for zeroth, solver in ((True, ekf0), (False, ekf1)):
        for ns in (2, 3, None):
            for sqrt in (False, True):
                for key in (True, False):
                    out.append(restart(solver, zeroth, ns, sqrt, key))
        for sqrt in (False, True):
            for key in (True, False):
                out.append(restart(solver, zeroth, 2, sqrt, key, False))
    return out


def initial_law(f, x, ns):
    """x, x' = f, x'' = df/dx f + df/dt, then zeros; unit variance and no correlation from the fourth state on."""
    d = x.shape[0]
    v = f(x, 0.0)
    a = jax.jacfwd(f, 0)(x, 0.0) @ v + jax.jacfwd(f, 1)(x, 0.0)
    if isinstance(ns, int) and ns <= 3:
        return jnp.stack([x, v, a][:ns], 1).reshape((ns * d,)), jnp.zeros((ns * d, ns * d))
    rows = jnp.concatenate([jnp.stack([x, v, a]), jnp.zeros((ns - 3, d))])
    B = jnp.diag(jnp.where(jnp.arange(ns) < 3, 0.0, 1.0))
    return rows.T.reshape((ns * d,)), block_eye(d, B)


def restart(solver, zeroth, nstates, sqrt, withkey, prior=True):
    st = States(nstates)
    n = st.shape
    args = [Arg("x", ("d",)), Arg("h", (), "pos"), Arg("z", ("d",)), Arg("t", ()), Arg("mo", (n,)),
            Arg("Po", (n, n), "real" if sqrt else "psd")]
    if withkey:
        args = [Arg("key", (), "key")] + args
    if prior:
        args += [Arg("A", (n, n)), Arg("Q", (n, n), "pd"), Arg("xi", (n,)), Arg("R", ("d", "d"), "psd")]
    ode = Callee("ode_solvers.ekf", "_solver")

    def code(U, D, x, h, z, t, mo, Po, key=None, A=None, Q=None, xi=None, R=None):
        ns = st.of(D)
        pr = (xi, Q, A) if prior else None
        y, c = ode.run(lambda a: (mo, Po),
                       lambda: solver(key, x, U.f, h, D.N, sqrt=sqrt, prior=pr, noise=R if prior else None))
        if c is None:
            return {"result": y}
        if (bool(c["sqrt"]), bool(c["EKF0"]), c["n_states"], bool(c["return_all"])) != (sqrt, zeroth, ns, False):
            raise Unsupported("mode of the ODE filter")
        if c["N"] != D.N:
            raise Unsupported("number of filter steps")
        same = c["prior"] is None and c["noise"] is None
        if same == prior:
            raise Unsupported("prior not passed on")
        return {"result": y, "init": c["init"], "field": c["vector_field"](z, t), "h": c["h"],
                "prior": (c["prior"], c["noise"]) if prior else None}

    def rel(U, D, a, o):
        ns = st.of(D)
        m0, P0 = initial_law(U.f, a["x"], ns)
        if prior:
            A, Q, xi, R = a["A"], a["Q"], a["xi"], a["R"]
        if "init" not in o:
            if not prior:
                A, Q = (block_eye(D.d, X) for X in ibm(ns - 1, 1.0, a["h"]))
                xi, R = jnp.zeros(ns * D.d), jnp.zeros((D.d, D.d))
            m, P, _, _ = ode_filter(U.f, m0, P0, A, Q, xi, R, a["h"], D.N, ns, zeroth)
            r = {}
            m, P = m[::ns], P[::ns, ::ns]
        else:
            r = {"initial mean": Eq(o["init"][0], m0), "vector field": Eq(o["field"], U.f(a["z"], a["t"])),
                 "initial covariance": Eq(gram(o["init"][1]) if sqrt else o["init"][1], P0), "step": Eq(o["h"], a["h"])}
            if prior:
                r["prior and noise"] = Eq(o["prior"], ((xi, Q, A), R))
            m, P = a["mo"][::ns], (gram(a["Po"]) if sqrt else a["Po"])[::ns, ::ns]
        if withkey:
            r["posterior draw"] = Law(o["result"], m, P)
        else:
            r["posterior mean"] = Eq(o["result"], m, 1e-6)
        return r
    name = (f"EKF{'0' if zeroth else '1'} restarting, {st.title}{' sqrt' if sqrt else ''}"
            f"{'' if prior else ', default prior'}{', draw' if withkey else ', mean'}")
    num = st.sizes([dict(d=2, N=2), dict(d=1, N=3), dict(d=3, N=1)])
    return Contract(name, [f"ode_solvers.ekf{'0' if zeroth else '1'}.solver"], code, rel, args, {"f": ("d",)}, st.dims,
                    st.sizes([dict(d=1, N=2), dict(d=2, N=2)]), num, stubs=ode.stubs, samples=6, law=withkey)
