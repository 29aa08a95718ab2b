"""S24: no key is drawn from twice, or drawn from and split."""
from jxv.harness import *
from jxv.reap import consumed
from contracts.common import *


def contracts():
    import bayesian_sde_solver.foster_polynomial as FP
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.sde_solvers import euler_maruyama, diag_15_scheme, hypoelliptic_diffusion_15_scheme
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1, ekf0_2, ekf1_2, euler
    from bayesian_sde_solver.ssm_parabola.ekf0 import solver as pekf0
    from bayesian_sde_solver.ssm_parabola.ekf1 import solver as pekf1
    from bayesian_sde_solver.ssm_parabola.ssm_parabola_ode import sde_solver as parabola_solver
    from bayesian_sde_solver.utils import ivp
    out = []

    def bar(mods):      # under contract in S22: transparent
        return [(mods["bayesian_sde_solver.utils.progress_bar"].progress_bar, identity_progress_bar)]

    def add(name, functions, call, dims, inst, num, ufs=None, batch=(), **kw):
        def code(U, D, **a):
            return consumed(lambda a: call(U, D, **a), a)

        def rel(U, D, a, o):
            draws, splits = o
            return {"keys used once": Distinct(*draws, apart=splits)}
        args = [Arg("key", batch, "key"), Arg("x", (kw.pop("state", "d"),)), Arg("h", (), "pos")]
        out.append(Contract(name, functions, code, rel, args, ufs or {}, dims, inst, num, samples=kw.pop("samples", 4), stubs=bar, **kw))

    # Brownian approximations, for one key and for a batch of keys
    for b, batch in (("one key", ()), ("batch of keys", ("B",))):
        bd = ["B"] if batch else []
        one = lambda **k: [dict(k, B=3)] if batch else [k]
        hh = lambda D, h: h
        add(f"get_approx, {b}", ["foster_polynomial.get_approx"], lambda U, D, key, x, h: FP.get_approx(D.d)[0](key, h),
            ["d"] + bd, one(d=2), one(d=3), batch=batch)
        add(f"get_approx_and_brownian, {b}", ["foster_polynomial.get_approx_and_brownian"],
            lambda U, D, key, x, h: FP.get_approx_and_brownian(D.d, D.M)[0](key, h), ["d", "M"] + bd, one(d=2, M=3), one(d=2, M=5), batch=batch)
        add(f"get_approx_fine, {b}", ["foster_polynomial.get_approx_fine"],
            lambda U, D, key, x, h: FP.get_approx_fine(D.d, D.M)[0](key, h), ["d", "M"] + bd, one(d=2, M=3), one(d=2, M=7), batch=batch)

    inst = [dict(d=2, m=2, N=3)]
    num = [dict(d=2, m=2, N=1), dict(d=2, m=2, N=5), dict(d=3, m=3, N=17)]
    add("euler-maruyama", ["sde_solvers.euler_maruyama"], lambda U, D, key, x, h: euler_maruyama(key, x, U.f, U.g, h, D.N),
        ["d", "m", "N"], inst, num, dict(f=("d",), g=("d", "m")))
    aut = dict(f=("d",), g=("d", "d"))
    for name, s in (("diag_15_scheme", diag_15_scheme), ("hypoelliptic_diffusion_15_scheme", hypoelliptic_diffusion_15_scheme)):
        add(name, ["sde_solvers." + name], lambda U, D, key, x, h, s=s: s(key, x, lambda z: U.f(z), lambda z: U.g(z), h, D.N),
            ["d", "N"], [dict(d=2, N=3)], [dict(d=2, N=1), dict(d=3, N=9)], aut)

    # the solver of random ODEs with every approximation and every integrator
    bms = dict(get_approx=lambda D: FP.get_approx(D.m), get_approx_and_brownian=lambda D: FP.get_approx_and_brownian(D.m, 4),
               get_approx_fine=lambda D: FP.get_approx_fine(D.m, 5))
    user = lambda key, init, vector_field, T: init + jax.random.normal(key, (2,))[0] * vector_field(init, T)
    odes = dict(ekf0=lambda U, D: lambda key, init, vector_field, T: ekf0(key, init, vector_field, T / 3, 3),
                ekf1=lambda U, D: lambda key, init, vector_field, T: ekf1(key, init, vector_field, T / 3, 3),
                ekf0_2=lambda U, D: lambda key, init, vector_field, T: ekf0_2(key, init, vector_field, T / 3, 3),
                ekf1_2=lambda U, D: lambda key, init, vector_field, T: ekf1_2(key, init, vector_field, T / 3, 3),
                euler=lambda U, D: lambda key, init, vector_field, T: euler(init, vector_field, T / 3, 3),
                user=lambda U, D: user)
    for b, bm in bms.items():
        for i, ode in odes.items():
            if b != "get_approx" and i not in ("ekf0", "ekf1_2", "user"):
                continue

            def call(U, D, key, x, h, bm=bm, ode=ode, i=i):
                x0 = (x, x, jnp.eye(D.d)) if i.endswith("_2") else x
                return sde_solver(key, U.f, U.g, x0, lambda: bm(D), h, D.N, ode(U, D))
            small = [dict(d=2, m=2, N=3)]
            add(f"sde_solver with {b} and {i}", ["sde_solver.sde_solver", "foster_polynomial." + b, "ode_solvers." + i], call,
                ["d", "m", "N"], small, num[:2], dict(f=("d",), g=("d", "m")), samples=2, direct=1)

    for i, s in (("ekf0", pekf0), ("ekf1", pekf1)):
        def pcall(U, D, key, x, h, s=s):
            return parabola_solver(key, U.f, U.g, x, h, D.N, lambda key, init, drift, diffusion, T: s(key, init, T, drift, diffusion, T / 3, 3))
        add(f"parabola state-space solver with {i}", ["ssm_parabola.ssm_parabola_ode.sde_solver", "ssm_parabola." + i], pcall, ["N"],
            [dict(N=3)], [dict(N=1), dict(N=6)], dict(f=(2,), g=(2, 2)), state=2, samples=2, direct=1)

    add("random_linear_sde", ["utils.ivp.random_linear_sde"],
        lambda U, D, key, x, h: [f(x, h) for f in ivp.random_linear_sde(key, D.d)[1:]], ["d"], [dict(d=2)], [dict(d=1), dict(d=4)])
    return out
