"""S04: diagonal order-1.5 Ito-Taylor scheme."""
from jxv.harness import *
from contracts.common import *


def contracts():
    from bayesian_sde_solver.sde_solvers import diag_15_scheme as solver
    args = [Arg("key", (), "key"), Arg("x0", ("d",)), Arg("h", (), "pos")]

    def diag_sigma(U, D):
        ks = jnp.arange(D.d) * 1.0
        return lambda x: jax.vmap(U.b)(ks, x)

    def driving(D, key, h):
        """The noise of a step, read off the solver itself: zero drift and f(x) = x with unit diffusion."""
        one = lambda x: jnp.eye(D.d)
        z = jnp.zeros(D.d)
        _, w = solver(key, z, lambda x: 0 * x, one, h, D.N)
        _, y = solver(key, z, lambda x: x, one, h, D.N)
        dw = w[1:] - w[:-1]
        dz = y[1:] - (1 + h + h ** 2 / 2) * y[:-1] - dw
        return dw, dz

    def code(U, D, key, x0, h):
        b = diag_sigma(U, D)
        return solver(key, x0, U.f, lambda x: jnp.diag(b(x)), h, D.N), driving(D, key, h)

    def rel(U, D, a, o):
        (ts, xs), (dw, dz) = o
        h = a["h"]
        f, b = U.f, diag_sigma(U, D)
        ks = jnp.arange(D.d) * 1.0
        db = lambda x: jax.vmap(jax.grad(U.b, 1))(ks, x)
        ddb = lambda x: jax.vmap(jax.grad(jax.grad(U.b, 1), 1))(ks, x)

        def L0(g):
            def lap(x):
                H = jax.jacfwd(jax.jacfwd(g))(x)
                return jnp.einsum("kjj,j->k", H, b(x) ** 2)
            return lambda x: jax.jacfwd(g)(x) @ f(x) + 0.5 * lap(x)

        def step(x, w, z):
            B, B1, B2 = b(x), db(x), ddb(x)
            return (x + h * f(x) + B * w
                    + 0.5 * B * B1 * (w ** 2 - h)
                    + jax.jacfwd(f)(x) @ (B * z)
                    + 0.5 * h ** 2 * L0(f)(x)
                    + (f(x) * B1 + 0.5 * B ** 2 * B2) * (h * w - z)
                    + 0.5 * B * (B1 ** 2 + B * B2) * (w ** 2 / 3 - h) * w)
        d = D.d
        I = jnp.eye(d)
        C = jnp.concatenate([jnp.concatenate([h * I, h ** 2 / 2 * I], 1), jnp.concatenate([h ** 2 / 2 * I, h ** 3 / 3 * I], 1)])
        return {"time grid": Eq(ts, grid(D.N, h)), "start": Eq(xs[0], a["x0"]),
                "step": Eq(xs[1:], jax.vmap(step)(xs[:-1], dw, dz), 1e-7),
                "law of (dW, dZ)": Law(jnp.concatenate([dw, dz], 1), jnp.zeros((D.N, 2 * d)),
                                       jnp.tile(C, (D.N, 1, 1)), batch=1)}

    inst = [dict(d=1, N=2), dict(d=2, N=2)]
    num = [dict(d=1, N=3), dict(d=2, N=2), dict(d=3, N=1, nolaw=1)]
    return [Contract("order 1.5 step", ["sde_solvers.diag_15_scheme"], code, rel, args, {"f": ("d",), "b": ()}, ["d", "N"],
                     inst, num, law=True, samples=12)]
