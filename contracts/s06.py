"""S06: the parabola coefficients have the exact law of the Brownian polynomial expansion."""
from jxv.harness import *
from contracts.common import *


def pair_law(e0, e1, dt, v0, v1):
    d = e0.shape[0]
    e = jnp.concatenate([e0, e1])
    I, Z = jnp.eye(d), jnp.zeros((d, d))
    return Law(e, jnp.zeros(2 * d), jnp.concatenate([jnp.concatenate([v0 * I, Z], 1), jnp.concatenate([Z, v1 * I], 1)]))


def contracts():
    from bayesian_sde_solver.foster_polynomial import get_approx, get_approx_and_brownian, get_approx_fine
    args = [Arg("key", (), "key"), Arg("dt", (), "pos")]
    out = []

    def code(U, D, key, dt):
        return get_approx(dim=D.d)[0](key, dt)

    def rel(U, D, a, o):
        return {"law": pair_law(o[0], o[1], a["dt"], a["dt"], a["dt"] / 2)}
    num = [dict(d=1), dict(d=2), dict(d=4)]
    out.append(Contract("parabola coefficients", ["foster_polynomial.get_approx"], code, rel, args, {}, ["d"], num[:2], num, law=True))

    def code2(U, D, key, dt):
        return get_approx_fine(dim=D.d, N=D.N)[0](key, dt)

    def rel2(U, D, a, o):
        e0, e1, f0, f1 = o
        dt, N = a["dt"], D.N
        W = jnp.cumsum(f0, axis=0) - f0
        mean_path = jnp.sum(W + f0 / 2 + f1, axis=0) / N
        one = jnp.concatenate([f0, f1], axis=1)
        I, Z = jnp.eye(D.d), jnp.zeros((D.d, D.d))
        h = dt / N
        C = jnp.concatenate([jnp.concatenate([h * I, Z], 1), jnp.concatenate([Z, h / 12 * I], 1)])
        return {"increment": Eq(e0, jnp.sum(f0, axis=0)), "area": Eq(e1, 6 ** 0.5 * (mean_path - e0 / 2)),
                "fine law": Law(one, jnp.zeros((N, 2 * D.d)), jnp.tile(C, (N, 1, 1)), batch=1),
                "law": pair_law(e0, e1, dt, dt, dt / 2)}
    num = [dict(d=1, N=3), dict(d=2, N=4), dict(d=1, N=1)]
    out.append(Contract("fine coefficients", ["foster_polynomial.get_approx_fine"], code2, rel2, args, {}, ["d", "N"], num, num, law=True))

    def code3(U, D, key, dt):
        return get_approx_and_brownian(dim=D.d, N=D.N)[0](key, dt)

    def rel3(U, D, a, o):
        e0, e1, z = o
        dt, N = a["dt"], D.N
        w = (dt / N) ** 0.5 * jnp.cumsum(z, axis=0)
        area = (jnp.sum(w, axis=0) - w[-1] / 2) / N
        return {"increment": Eq(e0, w[-1]), "area": Eq(e1, 6 ** 0.5 * (area - e0 / 2)),
                "increments law": Law(z, jnp.zeros((N, D.d)), jnp.tile(jnp.eye(D.d), (N, 1, 1)), batch=1),
                "law": pair_law(e0, e1, dt, dt, dt / 2 * (1 - 1 / N / N))}
    num = [dict(d=1, N=3), dict(d=2, N=4), dict(d=1, N=1)]
    out.append(Contract("coefficients of a sampled path", ["foster_polynomial.get_approx_and_brownian"], code3, rel3, args, {}, ["d", "N"], num, num, law=True))
    return out
