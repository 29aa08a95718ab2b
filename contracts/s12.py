"""S12: the ODE filter: N filter steps, observing the vector field at the end of every step."""
from jxv.harness import *
from contracts.common import *
from contracts.filt import *
from contracts.s15 import ibm, ibm_any
from jxv.front import gram


def contracts():
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    from bayesian_sde_solver.ode_solvers.ekf import _solver
    out = []

    # ---- N steps of the filter: a fold of the contract of one step
    args = [Arg("m", ("n",)), Arg("P", ("n", "n"), "psd"), Arg("A", ("n", "n")), Arg("Q", ("n", "n"), "psd"),
            Arg("xi", ("n",)), Arg("R", ("p", "p"), "psd"), Arg("ts", ("N",))]

    def fold(U, D, m, P, A, Q, xi, R, ts):
        return ekf(init=(m, P), observation_function=U.O, A=A, Q_or_cholQ=Q, xi=xi, R_or_cholR=R, params=(ts,))

    def foldrel(U, D, a, o):
        def step(c, t):
            m, P, _, _ = ref_step(U.O, *c, a["A"], a["Q"], a["xi"], a["R"], t)
            return (m, P), None
        (m, P), _ = jax.lax.scan(step, (a["m"], a["P"]), a["ts"])
        return {"mean": Eq(o[0], m), "covariance": Eq(o[1], P)}
    num = [dict(n=2, p=1, N=3), dict(n=4, p=2, N=2), dict(n=2, p=2, N=1)]
    out.append(Contract("N filter steps", ["probnum.ekf"], fold, foldrel, args, {"O": ("p",)}, ["n", "p", "N"], num[:1], num, samples=8))

    # ---- square-root mode: the same fold of the one-step contract (S11)
    args = [Arg("m", ("n",)), Arg("L", ("n", "n")), Arg("A", ("n", "n")), Arg("W", ("n", "n")),
            Arg("xi", ("n",)), Arg("V", ("p", "p")), Arg("ts", ("N",))]

    def sfold(U, D, m, L, A, W, xi, V, ts):
        kw = dict(observation_function=U.O, A=A, Q_or_cholQ=W, xi=xi, R_or_cholR=V, lower_sqrt=True)
        a = ekf(init=(m, L), params=(ts,), **kw)
        b = ekf(init=(m, L), params=(ts,), return_UC=True, **kw)
        c, _ = jax.lax.scan(lambda x, t: (ekf(init=x, params=(t[None],), **kw), None), (m, L), ts)
        return a, b, c

    def sfoldrel(U, D, a, o):
        x, (y, _, _), z = o
        return {"fold": Eq(x, z, 1e-6), "fold (with S, z)": Eq(y, z, 1e-6)}
    out.append(Contract("N square-root filter steps", ["probnum.ekf"], sfold, sfoldrel, args, {"O": ("p",)}, ["n", "p", "N"],
                        num[:1], num, samples=8))

    # ---- the ODE filter: one call of the filter (whose contract is the above), with these arguments
    for ns in (2, 3, None):
        for zeroth in (False, True):
            for sqrt in (False, True):
                for given in (False, True):
                    for all_ in (False, True):
                        out.append(ode_contract(_solver, ns, zeroth, sqrt, given, all_))
    for ns in (2, 3, None):
        for zeroth in (False, True):
            out.append(padded_contract(_solver, ns, zeroth))
    return out


def padded_contract(_solver, nstates, zeroth):
    """A prior padded with noise-free states (square-root mode), the last of the states of each coordinate."""
    st = States(nstates)
    n = st.shape
    p = f"{nstates}-1" if nstates else "s-1"
    args = [Arg("m", (n,)), Arg("P", (n, n), "psd"), Arg("h", (), "pos"), Arg("A", (n, n)), Arg("Q", (p, p), "pd"),
            Arg("xi", (n,)), Arg("R", ("d", "d"), "psd"), Arg("mo", (n,)), Arg("Po", (n, n))]
    ekf = Callee("ode_solvers.probnum.ekf", "ekf")

    def pad(d, Q):
        return block_eye(d, jnp.pad(Q, ((0, 1), (0, 1))))

    def code(U, D, m, P, h, A, Q, xi, R, mo, Po):
        ns = st.of(D)
        x, c = ekf.run(lambda a: (mo, Po), lambda: _solver((m, jnp.linalg.cholesky(P)), U.f, h, D.N, sqrt=True, EKF0=zeroth,
                                                           n_states=ns, prior=(xi, pad(D.d, Q), A), noise=R))
        return {"result": x} if c is None else {"Q": c["Q_or_cholQ"]}

    def rel(U, D, a, o):
        Q, ns = pad(D.d, a["Q"]), st.of(D)
        if "Q" in o:
            return {"process noise": Eq(gram(o["Q"]), Q)}
        m, P, S, c = ode_filter(U.f, a["m"], a["P"], a["A"], Q, a["xi"], a["R"], a["h"], D.N, ns, zeroth)
        return {"mean": Eq(o["result"][0], m, 1e-6), "covariance": Eq(gram(o["result"][1]), P, 1e-6)}
    return Contract(f"ODE filter {'EKF0' if zeroth else 'EKF1'} {st.title} sqrt, padded prior", ["ode_solvers.ekf._solver"],
                    code, rel, args, {"f": ("d",)}, st.dims, st.sizes([dict(d=1, N=1), dict(d=2, N=2)]),
                    st.sizes([dict(d=2, N=2), dict(d=1, N=1)]), stubs=ekf.stubs, samples=6)


def ode_contract(_solver, nstates, zeroth, sqrt, given, all_):
    st = States(nstates)
    n = st.shape
    args = [Arg("m", (n,)), Arg("P", (n, n), "psd"), Arg("h", (), "pos"), Arg("z", (n,)),
            Arg("mo", (n,)), Arg("Po", (n, n)), Arg("So", ("d", "d")), Arg("co", ("d",))]
    if given:
        args += [Arg("A", (n, n)), Arg("Q", (n, n), "pd"), Arg("xi", (n,)), Arg("R", ("d", "d"), "psd")]
    ekf = Callee("ode_solvers.probnum.ekf", "ekf")

    def code(U, D, m, P, h, z, mo, Po, So, co, A=None, Q=None, xi=None, R=None):
        ns = st.of(D)
        kw = dict(prior=(xi, Q, A), noise=R) if given else {}
        init = (m, P)
        x, c = ekf.run(lambda a: ((mo, Po), So, co) if all_ else (mo, Po),
                       lambda: _solver((m, fac(P) if sqrt else P), U.f, h, D.N, sqrt=sqrt, EKF0=zeroth, n_states=ns,
                                       return_all=all_, **kw))
        if c is None:
            return {"result": x}
        if bool(c["lower_sqrt"]) != sqrt or bool(c["return_UC"]) != all_:
            raise Unsupported("mode of the filter")
        obs = c["observation_function"]
        return {"result": x, "init": c["init"], "A": c["A"], "Q": c["Q_or_cholQ"], "xi": c["xi"], "R": c["R_or_cholR"],
                "c": jax.vmap(lambda *t: obs(z, *t))(*c["params"]),
                "H": jax.vmap(lambda *t: jax.jacfwd(obs)(z, *t))(*c["params"])}

    def fac(P):
        return jnp.linalg.cholesky(P)

    def rel(U, D, a, o):
        ns = st.of(D)
        if given:
            A, Q, xi, R = a["A"], a["Q"], a["xi"], a["R"]
        else:
            A, Q = (block_eye(D.d, X) for X in (ibm if nstates else ibm_any)(ns - 1, 1.0, a["h"]))
            xi, R = jnp.zeros(ns * D.d), jnp.zeros((D.d, D.d))
        sq = gram if sqrt else (lambda X: X)
        if "c" not in o:
            tol = 1e-6
            m, P, S, c = ode_filter(U.f, a["m"], a["P"], A, Q, xi, R, a["h"], D.N, ns, zeroth)
            x = o["result"]
            x, S1, c1 = x if all_ else (x, S, c)
            return {"mean": Eq(x[0], m, tol), "covariance": Eq(sq(x[1]), P, tol),
                    "innovation covariance": Eq(S1, S, tol), "innovation": Eq(c1, c, tol)}
        res = ode_residual(U.f, ns, zeroth)
        t = a["h"] * (jnp.arange(D.N).astype(jnp.float64) + 1.0)
        want = ((a["mo"], a["Po"]), a["So"], a["co"]) if all_ else (a["mo"], a["Po"])
        return {"returns the posterior": Eq(o["result"], want),
                "initial law": Eq(o["init"], (a["m"], fac(a["P"]) if sqrt else a["P"])),
                "transition": Eq((o["A"], o["xi"]), (A, xi)), "process noise": Eq(sq(o["Q"]), Q),
                "observation noise": Eq(sq(o["R"]), R),
                "observations": Eq(o["c"], jax.vmap(lambda s: res(a["z"], s))(t)),
                "linearisation": Eq(o["H"], jax.vmap(lambda s: jax.jacfwd(res)(a["z"], s))(t))}
    num = st.sizes([dict(d=2, N=3), dict(d=1, N=1)])
    name = (f"ODE filter {'EKF0' if zeroth else 'EKF1'} {st.title}{' sqrt' if sqrt else ''}"
            f"{', given prior and noise' if given else ''}{', innovations' if all_ else ''}")
    return Contract(name, ["ode_solvers.ekf._solver"], code, rel, args, {"f": ("d",)}, st.dims,
                    st.sizes([dict(d=1, N=2), dict(d=2, N=2)]), num, stubs=ekf.stubs, samples=6)
