"""S07: the parabola path interpolates Brownian motion."""
from jxv.harness import *
from contracts.common import *


def contracts():
    from bayesian_sde_solver.foster_polynomial import get_approx, get_approx_and_brownian, get_approx_fine
    out = []
    makers = [("direct", get_approx, False, 0), ("sampled path", get_approx_and_brownian, True, 1),
              ("fine", get_approx_fine, True, 2)]
    for name, get, hasN, extra in makers:
        args = [Arg("t"), Arg("dt", (), "pos"), Arg("a", ("d",)), Arg("b", ("d",))]
        ex = [Arg(f"z{q}", ("N", "d")) for q in range(extra)]
        dims = ["d", "N"] if hasN else ["d"]

        def code(U, D, t, dt, a, b, get=get, hasN=hasN, **z):
            _, ev = get(dim=D.d, N=D.N) if hasN else get(dim=D.d)
            e = lambda s: ev(s, dt, a, b, *z.values())
            return e(t), e(0.0 * dt), e(dt / 2), e(dt), jax.jacfwd(e)(t)

        def rel(U, D, A, o):
            t, dt, a, b = A["t"], A["dt"], A["a"], A["b"]
            u = t / dt
            x, x0, xm, x1, v = o
            return {"value": Eq(x, a * u + 6 ** 0.5 * b * u * (1 - u)), "starts at zero": Eq(x0, 0 * a),
                    "ends at the increment": Eq(x1, a),
                    "time integral": Eq(dt * (x0 + 4 * xm + x1) / 6, dt * a / 2 + dt * b / 6 ** 0.5),
                    "slope": Eq(v, a / dt + 6 ** 0.5 * (1 - 2 * u) * b / dt)}
        num = [dict(d=1), dict(d=3)]
        num = [dict(n, N=3) for n in num] if hasN else num
        out.append(Contract(f"parabola path ({name})", [f"foster_polynomial.{get.__name__}.eval_parabola"], code, rel,
                            args + ex, {}, dims, num, num))

    def code(U, D, key, dt):
        draw, ev = get_approx_fine(dim=D.d, N=D.N)
        _, fine_ev = get_approx(dim=D.d)
        e0, e1, f0, f1 = c = draw(key, dt)
        P = lambda t: ev(t, dt, *c)
        h = dt / D.N
        simpson = lambda p, l: l * (p(0.0 * l) + 4 * p(l / 2) + p(l)) / 6
        # the returned fine parabolas: their second coefficient is the time average above the chord
        fine = jax.vmap(lambda a, b: (fine_ev(h, h, a, 6 ** 0.5 * b), simpson(lambda t: fine_ev(t, h, a, 6 ** 0.5 * b), h)))(f0, f1)
        return P(dt), simpson(P, dt), fine

    def rel(U, D, A, o):
        end, area, (ends, areas) = o
        W = jnp.cumsum(ends, axis=0) - ends
        return {"end value of the concatenation": Eq(end, jnp.sum(ends, axis=0)),
                "integral of the concatenation": Eq(area, jnp.sum(areas + A["dt"] / D.N * W, axis=0))}
    num = [dict(d=1, N=3), dict(d=2, N=4), dict(d=1, N=1)]
    out.append(Contract("concatenation", ["foster_polynomial.get_approx_fine"], code, rel,
                        [Arg("key", (), "key"), Arg("dt", (), "pos")], {}, ["d", "N"], num, num))
    return out
