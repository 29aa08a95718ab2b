"""S08: one step of the random-ODE solver, for any Brownian approximation and any ODE integrator."""
from jxv.harness import *
from contracts.common import *


def contracts():
    from bayesian_sde_solver.sde_solver import sde_solver
    args = [Arg("key", (), "key"), Arg("y0", ("d",)), Arg("delta", (), "pos"), Arg("zp", ("d",)), Arg("sp", (), "unit")]
    ufs = {"f": ("d",), "g": ("d", "m"), "A": ("m",), "B": ("m",), "E": ("m",), "O": ("d",)}
    fn = ["sde_solver.sde_solver", "utils.insert.insert"]
    inst = [dict(d=1, m=1, N=3), dict(d=2, m=1, N=3), dict(d=2, m=3, N=2)]
    num = inst + [dict(d=2, m=2, N=1), dict(d=2, m=2, N=19)]

    def stubs(mods):
        pb = mods["bayesian_sde_solver.utils.progress_bar"].progress_bar
        return [(pb, identity_progress_bar)]

    def bm(U, ghost):
        def get_coeffs(key, dt):
            return (U.A(key, dt), U.B(key, dt), key) if ghost else (U.A(key, dt), U.B(key, dt))

        def eval_fn(t, dt, a, b, *_):
            return U.E(t, dt, a, b)
        return lambda: (get_coeffs, eval_fn)

    # an arbitrary integrator, which probes the vector field at an arbitrary point, and an arbitrary
    # Brownian approximation; ghost outputs record the keys each received
    def code(U, D, key, y0, delta, zp, sp):
        def ode_int(k, init, vector_field, T):
            y, _ = init
            return U.O(k, y, vector_field(zp, sp), T), k
        return sde_solver(key, U.f, U.g, (y0, key), bm(U, True), delta, D.N, ode_int)

    def rel(U, D, a, o):
        ts, (ys, kd), A, B, ck = o
        key, delta, zp, sp = a["key"], a["delta"], a["zp"], a["sp"]
        t = grid(D.N, delta)

        def step(y, t, k, A, B):
            dE = jax.jacfwd(lambda s: U.E(s, delta, A, B))(sp)
            v = U.f(zp, sp + t) + U.g(zp, sp + t) @ dE
            return U.O(k, y, v, delta)
        nx = jax.vmap(step)(ys[:-1], t[:-1], kd[1:], A, B)
        return {"time grid": Eq(ts, t), "start": Eq(ys[0], a["y0"]), "step": Eq(ys[1:], nx),
                "coefficients": Eq((A, B), (jax.vmap(lambda k: U.A(k, delta))(ck), jax.vmap(lambda k: U.B(k, delta))(ck))),
                "keys": Distinct(a["key"], kd[1:], ck)}

    # plain-array state
    def code2(U, D, key, y0, delta, zp, sp):
        def ode_int(k, init, vector_field, T):
            return U.O(k, init, vector_field(init, sp), T)
        return sde_solver(key, U.f, U.g, y0, bm(U, True), delta, D.N, ode_int)

    def rel2(U, D, a, o):
        ts, ys, A, B, ck = o
        return {"time grid": Eq(ts, grid(D.N, a["delta"])), "start": Eq(ys[0], a["y0"]), "keys": Distinct(ck)}

    # integrator without randomness: the full recursion is fixed by the reported coefficients
    def code3(U, D, key, y0, delta, zp, sp):
        def ode_int(k, init, vector_field, T):
            return U.O(init, vector_field(init, sp), vector_field(zp, T), T)
        return sde_solver(key, U.f, U.g, y0, bm(U, False), delta, D.N, ode_int)

    def rel3(U, D, a, o):
        ts, ys, A, B = o
        delta, zp, sp = a["delta"], a["zp"], a["sp"]

        def step(y, t, A, B):
            def v(z, s):
                return U.f(z, s + t) + U.g(z, s + t) @ jax.jacfwd(lambda r: U.E(r, delta, A, B))(s)
            return U.O(y, v(y, sp), v(zp, delta), delta)
        return {"step": Eq(ys[1:], jax.vmap(step)(ys[:-1], grid(D.N, delta)[:-1], A, B))}

    return [Contract("random-ODE step", fn, code, rel, args, ufs, ["d", "m", "N"], inst, num, stubs=stubs, samples=8),
            Contract("random-ODE array state", fn, code2, rel2, args, ufs, ["d", "m", "N"], inst, inst[:2], stubs=stubs, samples=4),
            Contract("random-ODE recursion", fn, code3, rel3, args, ufs, ["d", "m", "N"], inst, num[:4], stubs=stubs, samples=6)]
