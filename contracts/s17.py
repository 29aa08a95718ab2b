"""S17: transition of a linear time-invariant SDE."""
from jxv.harness import *
from contracts.common import *


def trapezoid(y, h, n):
    """Composite trapezoidal rule on n equally spaced nodes of [0, h]; y(s) is the integrand."""
    w = h / (n - 1)
    left = jax.vmap(lambda k: y(k * w))(jnp.arange(n - 1).astype(f64))
    right = jax.vmap(lambda k: y((k + 1) * w))(jnp.arange(n - 1).astype(f64))
    return jnp.sum(w / 2 * (left + right), axis=0)


def contracts():
    from bayesian_sde_solver.ode_solvers.probnum import transition_function
    E = jax.scipy.linalg.expm
    args = [Arg("F", ("d", "d")), Arg("u", ("d",)), Arg("L", ("d", "m")), Arg("h", (), "pos")]

    def code(U, D, F, u, L, h):
        return transition_function(F, u, L, h, D.n + 1)

    def rel(U, D, a, o):
        F, u, L, h = a["F"], a["u"], a["L"], a["h"]
        xi, Q, A = o
        n = D.n + 1
        q = lambda s: (E(F * s) @ L) @ (E(F * s) @ L).T
        return {"transition": Eq(A, E(F * h)), "offset": Eq(xi, trapezoid(lambda s: E(F * s) @ u, h, n), 1e-6),
                "covariance": Eq(Q, trapezoid(q, h, n), 1e-6)}

    inst = [dict(d=1, m=1, n=2), dict(d=2, m=1, n=3)]
    num = [dict(d=1, m=1, n=1), dict(d=2, m=1, n=40), dict(d=3, m=2, n=25), dict(d=2, m=3, n=101)]

    # the default number of nodes
    def dcode(U, D, F, u, L, h):
        return transition_function(F, u, L, h)

    def drel(U, D, a, o):
        F, u, L, h = a["F"], a["u"], a["L"], a["h"]
        xi, Q, A = o
        q = lambda s: (E(F * s) @ L) @ (E(F * s) @ L).T
        return {"transition": Eq(A, E(F * h)), "offset": Eq(xi, trapezoid(lambda s: E(F * s) @ u, h, 10000), 1e-5),
                "covariance": Eq(Q, trapezoid(q, h, 10000), 1e-5)}

    # a nilpotent drift: the exact covariance is known, quadrature must approach it
    def ncode(U, D, h, s):
        F = jnp.array([[0., 1.], [0., 0.]])
        return transition_function(F, jnp.array([0., 1.]), jnp.array([[0.], [1.]]) * s, h)

    def nrel(U, D, a, o):
        h, s = a["h"], a["s"]
        xi, Q, A = o
        m = lambda M: jnp.stack([jnp.stack([jnp.asarray(v) * 1. for v in r]) for r in M])
        return {"exact transition": Eq(A, m([[1., h], [0., 1.]])), "offset up to quadrature": Eq(xi, m([[h ** 2 / 2, h]])[0], 1e-4),
                "covariance up to quadrature": Eq(Q, s ** 2 * m([[h ** 3 / 3, h ** 2 / 2], [h ** 2 / 2, h]]), 1e-4)}
    fn = ["probnum.transition_function"]
    return [Contract("linear transition", fn, code, rel, args, {}, ["d", "m", "n"], inst, num, samples=8, loops=()),
            Contract("default nodes", fn, dcode, drel, args, {}, ["d", "m"], [dict(d=1, m=1), dict(d=2, m=1)],
                     [dict(d=1, m=1), dict(d=2, m=1)], samples=4, loops=()),
            Contract("double integrator", fn, ncode, nrel, [Arg("h", (), "pos"), Arg("s")], {}, [], [{}], [{}], samples=6, prove=False,
                     note="numerical comparison with the exact covariance (bounded)")]
