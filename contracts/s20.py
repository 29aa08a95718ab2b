"""S20: the parabola state-space solver: Brownian coefficients carried in the filter state."""
from jxv.harness import *
from jxv.front import gram
from contracts.common import *
from contracts.filt import *
from contracts.s15 import ibm


def contracts():
    from bayesian_sde_solver.ssm_parabola.ekf import _solver
    from bayesian_sde_solver.ssm_parabola.ekf0 import solver as ekf0
    from bayesian_sde_solver.ssm_parabola.ekf1 import solver as ekf1
    from bayesian_sde_solver.ssm_parabola.ssm_parabola_ode import sde_solver
    out = [filt(_solver, zeroth, sqrt, given) for zeroth in (False, True) for sqrt in (False, True)
           for given in (False, True)]
    out += [wrap(solver, zeroth, sqrt, key, given) for zeroth, solver in ((True, ekf0), (False, ekf1))
            for sqrt in (False, True) for key in (True, False) for given in (False, True)]
    out += driver(sde_solver)
    return out


def residual(f, g, delta, zeroth):
    """Derivative minus f + sigma x slope of the parabola with the carried coefficients, coordinate-major state
    (position, derivative, increment a, second coefficient b)."""
    def obs(x, t):
        y = x[::4]
        if zeroth:
            y = jax.lax.stop_gradient(y)
        slope = x[2::4] / delta + jnp.sqrt(6.0) * (1.0 - 2.0 * t / delta) * x[3::4] / delta
        return x[1::4] - (f(y, t) + g(y, t) @ slope)
    return obs


def initial_law(f, g, x, delta, d):
    """(x0, f(x0,0) + sigma (a/delta + sqrt(6) b/delta), a, b), a ~ N(0, delta I), b ~ N(0, delta/2 I)."""
    z, s = jnp.zeros(d), g(x, 0.0)
    B = jnp.zeros((d, 4, 2, d))
    eye = jnp.eye(d)
    B = B.at[:, 1, 0].set(s / delta).at[:, 1, 1].set(jnp.sqrt(6.0) * s / delta).at[:, 2, 0].set(eye).at[:, 3, 1].set(eye)
    P = jnp.einsum("iakl,jbkl,k->iajb", B, B, jnp.stack([delta, delta / 2]))
    return jnp.stack([x, f(x, 0.0), z, z], 1).reshape((4 * d,)), P.reshape((4 * d, 4 * d))


def transition(A, Q, xi, d):
    """The prior on (position, derivative), the coefficients constant and without noise."""
    z = jnp.zeros((2, 2))
    A = jnp.block([[A, z], [z, jnp.eye(2)]])
    Q = jnp.block([[Q, z], [z, z]])
    return block_eye(d, A), block_eye(d, Q), jnp.tile(jnp.concatenate([xi, jnp.zeros(2)]), d)


def filt(_solver, zeroth, sqrt, given):
    n = "4*d"
    args = [Arg("x", ("d",)), Arg("delta", (), "pos"), Arg("h", (), "pos"), Arg("z", (n,)), Arg("mo", (n,)), Arg("Po", (n, n))]
    if given:
        args += [Arg("A", (2, 2)), Arg("Q", (2, 2), "pd"), Arg("xi", (2,)), Arg("R", ("d", "d"), "psd")]
    ekf = Callee("ode_solvers.probnum.ekf", "ekf")

    def code(U, D, x, delta, h, z, mo, Po, A=None, Q=None, xi=None, R=None):
        kw = dict(prior=(xi, Q, A), noise=R) if given else {}
        y, c = ekf.run(lambda a: (mo, Po), lambda: _solver(x, U.f, U.g, delta, h, D.N, sqrt=sqrt, EKF0=zeroth, **kw))
        if c is None:
            return {"result": y}
        if bool(c["lower_sqrt"]) != sqrt or bool(c["return_UC"]):
            raise Unsupported("mode of the filter")
        obs = c["observation_function"]
        return {"result": y, "init": c["init"], "A": c["A"], "Q": c["Q_or_cholQ"], "xi": c["xi"], "R": c["R_or_cholR"],
                "c": jax.vmap(lambda *t: obs(z, *t))(*c["params"]),
                "H": jax.vmap(lambda *t: jax.jacfwd(obs)(z, *t))(*c["params"])}

    def rel(U, D, a, o):
        x, delta, h, d = a["x"], a["delta"], a["h"], D.d
        if given:
            R = a["R"]
            A, Q, xi = transition(a["A"], a["Q"], a["xi"], d)
        else:
            R = jnp.zeros((d, d))
            A, Q, xi = transition(*ibm(1, 1.0, h), jnp.zeros(2), d)
        sq = gram if sqrt else (lambda X: X)
        m0, P0 = initial_law(U.f, U.g, x, delta, d)
        res = residual(U.f, U.g, delta, zeroth)
        if "init" not in o:
            def step(y, k):
                m, P, _, _ = ref_step(res, y[0], y[1], A, Q, xi, R, h * (k + 1.0))
                return (m, P), None
            (m, P), _ = jax.lax.scan(step, (m0, P0), jnp.arange(D.N).astype(jnp.float64))
            return {"mean": Eq(o["result"][0], m, 1e-5), "covariance": Eq(sq(o["result"][1]), P, 1e-5)}
        t = h * (jnp.arange(D.N).astype(jnp.float64) + 1.0)
        return {"returns the posterior": Eq(o["result"], (a["mo"], a["Po"])), "initial mean": Eq(o["init"][0], m0),
                "initial covariance": Eq(sq(o["init"][1]), P0), "transition": Eq(o["A"], A),
                "process noise": Eq(sq(o["Q"]), Q), "offset": Eq(o["xi"], xi), "observation noise": Eq(sq(o["R"]), R),
                "observations": Eq(o["c"], jax.vmap(lambda s: res(a["z"], s))(t)),
                "linearisation": Eq(o["H"], jax.vmap(lambda s: jax.jacfwd(res)(a["z"], s))(t))}
    name = (f"parabola filter EKF{'0' if zeroth else '1'}{' sqrt' if sqrt else ''}"
            f"{', given prior and noise' if given else ''}")
    return Contract(name, ["ssm_parabola.ekf._solver"], code, rel, args, {"f": ("d",), "g": ("d", "d")}, ["d", "N"],
                    [dict(d=1, N=1), dict(d=2, N=2), dict(d=3, N=1)], [dict(d=2, N=2), dict(d=1, N=1), dict(d=3, N=2)],
                    stubs=ekf.stubs, samples=6)


def wrap(solver, zeroth, sqrt, withkey, given):
    n = "4*d"
    args = [Arg("x", ("d",)), Arg("delta", (), "pos"), Arg("h", (), "pos"), Arg("z", ("d",)), Arg("t", ()), Arg("mo", (n,)),
            Arg("Po", (n, n), "real" if sqrt else "psd")]
    if withkey:
        args = [Arg("key", (), "key")] + args
    if given:
        args += [Arg("A", (2, 2)), Arg("Q", (2, 2), "pd"), Arg("xi", (2,)), Arg("R", ("d", "d"), "psd")]
    ode = Callee("ssm_parabola.ekf", "_solver")

    def code(U, D, x, delta, h, z, t, mo, Po, key=None, A=None, Q=None, xi=None, R=None):
        kw = dict(prior=(xi, Q, A), noise=R) if given else {}
        y, c = ode.run(lambda a: (mo, Po),
                       lambda: solver(key, x, delta, U.f, U.g, h, D.N, sqrt=sqrt, **kw))
        if c is None:
            return {"result": y}
        if (bool(c["sqrt"]), bool(c["EKF0"])) != (sqrt, zeroth) or c["N"] != D.N:
            raise Unsupported("mode of the filter")
        if (c["prior"] is None and c["noise"] is None) == given:
            raise Unsupported("prior not passed on")
        return {"result": y, "field": (c["drift"](z, t), c["diffusion"](z, t)), "args": (c["init"], c["delta"], c["h"]),
                "prior": (c["prior"], c["noise"]) if given else None}

    def rel(U, D, a, o):
        r = {}
        if given:
            R = a["R"]
        if "args" not in o:
            d, delta, h = D.d, a["delta"], a["h"]
            if given:
                A, Q, xi = transition(a["A"], a["Q"], a["xi"], d)
            else:
                A, Q, xi = transition(*ibm(1, 1.0, h), jnp.zeros(2), d)
                R = jnp.zeros((d, d))
            res = residual(U.f, U.g, delta, zeroth)

            def step(y, k):
                m, P, _, _ = ref_step(res, y[0], y[1], A, Q, xi, R, h * (k + 1.0))
                return (m, P), None
            (m, P), _ = jax.lax.scan(step, initial_law(U.f, U.g, a["x"], delta, d), jnp.arange(D.N).astype(jnp.float64))
        else:
            r = {"drift and diffusion": Eq(o["field"], (U.f(a["z"], a["t"]), U.g(a["z"], a["t"]))),
                 "initial state and steps": Eq(o["args"], (a["x"], a["delta"], a["h"]))}
            if given:
                r["prior and noise"] = Eq(o["prior"], ((a["xi"], a["Q"], a["A"]), R))
            m, P = a["mo"], gram(a["Po"]) if sqrt else a["Po"]
        idx = (0, 2, 3)
        out = o["result"]
        for i, k, what in zip(idx, range(3), ("state", "increment", "second coefficient")):
            if withkey:
                r[f"{what}"] = Law(out[k], m[i::4], P[i::4, i::4])
            else:
                r[f"{what}"] = Eq(out[k], m[i::4], 1e-5)
        if withkey:
            c1, c2 = 1.7, -0.6      # joint law, through generic combinations
            w = {0: 1.0, 2: c1, 3: c2}
            mm = sum(w[i] * m[i::4] for i in idx)
            PP = sum(w[i] * w[j] * P[i::4, j::4] for i in idx for j in idx)
            r["joint law"] = Law(out[0] + c1 * out[1] + c2 * out[2], mm, PP)
        return r
    k = "0" if zeroth else "1"
    name = (f"parabola EKF{k}{' sqrt' if sqrt else ''}{', given prior and noise' if given else ''}"
            f"{', draw' if withkey else ', mean'}")
    return Contract(name, [f"ssm_parabola.ekf{k}.solver"], code, rel, args, {"f": ("d",), "g": ("d", "d")}, ["d", "N"],
                    [dict(d=1, N=2), dict(d=2, N=1)], [dict(d=2, N=2), dict(d=1, N=1)], stubs=ode.stubs, samples=5, law=withkey)


def driver(sde_solver):
    args = [Arg("key", (), "key"), Arg("y0", ("d",)), Arg("delta", (), "pos"), Arg("zp", ("d",)), Arg("sp", (), "unit")]
    ufs = {"f": ("d",), "g": ("d", "m"), "O": ("d",), "A": ("m",), "B": ("m",)}
    fn = ["ssm_parabola.ssm_parabola_ode.sde_solver", "utils.insert.insert"]

    def stubs(mods):
        return [(mods["bayesian_sde_solver.utils.progress_bar"].progress_bar, identity_progress_bar)]

    def code(U, D, key, y0, delta, zp, sp):
        def one(k, init, drift, diffusion, T):
            y, _ = init
            v = drift(zp, sp) + diffusion(zp, sp) @ U.A(y, T)
            return (U.O(k, y, v, T), k), U.A(y, T), U.B(k, T)
        return sde_solver(key, U.f, U.g, (y0, key), delta, D.N, one)

    def rel(U, D, a, o):
        ts, (ys, kd) = o
        delta, zp, sp = a["delta"], a["zp"], a["sp"]
        t = grid(D.N, delta)

        def step(y, t, k):
            v = U.f(zp, sp + t) + U.g(zp, sp + t) @ U.A(y, delta)
            return U.O(k, y, v, delta)
        return {"time grid": Eq(ts, t), "start": Eq(ys[0], a["y0"]), "step": Eq(ys[1:], jax.vmap(step)(ys[:-1], t[:-1], kd[1:])),
                "keys": Distinct(a["key"], kd[1:])}
    inst = [dict(d=1, m=1, N=3), dict(d=2, m=2, N=2)]
    return [Contract("parabola driver", fn, code, rel, args, ufs, ["d", "m", "N"], inst, inst + [dict(d=2, m=1, N=19)],
                     stubs=stubs, samples=8)]
