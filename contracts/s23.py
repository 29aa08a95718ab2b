"""S23: the moments published with the benchmark problems are those of the SDE."""
from jxv.harness import *
from contracts.common import *
from contracts.s17 import trapezoid


def with_time(f):
    import inspect
    return f if len(inspect.signature(f).parameters) == 2 else (lambda x, t: f(x))


def generator(drift, sigma):
    """The generator of the (autonomous) SDE: g -> Dg.b + 1/2 tr(sigma sigma^T D2 g)."""
    b = lambda x: with_time(drift)(x, 0.)
    s = lambda x: with_time(sigma)(x, 0.)

    def L(g):
        def Lg(x):
            S = s(x)
            return jax.jacfwd(g)(x) @ b(x) + 0.5 * jnp.einsum("...ij,ij->...", jax.jacfwd(jax.jacfwd(g))(x), S @ S.T)
        return Lg
    return L


def powers(L, g, n):
    out = [g]
    for _ in range(n):
        out.append(L(out[-1]))
    return out


def mean_coefficients(p, n):
    """d^k/dt^k E[X_t] at t = 0, k = 0..n."""
    x0, drift, sigma = p[:3]
    return [g(x0) for g in powers(generator(drift, sigma), lambda x: x, n)]


def cov_coefficients(p, n):
    """d^k/dt^k Cov[X_t] at t = 0, k = 0..n."""
    import math
    x0, drift, sigma = p[:3]
    M = mean_coefficients(p, n)
    S = [g(x0) for g in powers(generator(drift, sigma), lambda x: jnp.outer(x, x), n)]
    return [S[k] - sum(math.comb(k, j) * jnp.outer(M[j], M[k - j]) for j in range(k + 1)) for k in range(n + 1)]


def at_zero(f, n):
    out = [f]
    for _ in range(n):
        out.append(jax.jacfwd(out[-1]))
    return [g(0.) for g in out]


def contracts():
    from bayesian_sde_solver.utils import ivp
    out = []
    t = [Arg("t", (), "pos")]
    X = lambda d: [Arg("x", (d,), "pos"), Arg("t", ())]

    def local(name, moment, order, coefficients, entry=None):
        """Local expansions: the derivatives at 0 of the published moment, entry by entry up to the stated order."""
        problem = getattr(ivp, name)

        def code(U, D, t):
            f = moment(problem())
            return at_zero(f, order)

        def rel(U, D, a, o):
            C = coefficients(problem(), order)
            r = {}
            for k in range(order + 1):
                y = C[k] if entry is None else entry(C[k], k)
                x = o[k] if entry is None else (o[k] if jnp.ndim(o[k]) == 0 else entry(o[k], k))
                r[f"order {k}"] = Eq(x, y)
            return r
        out.append(Contract(f"{name}: {coefficients.__name__.split('_')[0]} to order {order}" + (" (entries)" if entry else ""),
                            [f"utils.ivp.{name}"], code, rel, t, {}, [], [], [{}], samples=3))

    # FitzHugh-Nagumo: mean to order 2, variance to the order the published matrix has in each entry
    fhn_entry = lambda V, k: jnp.stack([V[0, 0], V[0, 1] if k < 3 else 0 * V[0, 1], V[1, 0] if k < 3 else 0 * V[0, 1],
                                        V[1, 1] if k < 3 else 0 * V[1, 1]])
    for name in ("fhn", "square_matrix_fhn"):
        local(name, lambda p: p[3], 2, mean_coefficients)
        local(name, lambda p: p[4], 3, cov_coefficients, fhn_entry)
    local("synaptic_conductance_reduced", lambda p: p[3], 2, mean_coefficients)
    local("synaptic_conductance", lambda p: p[3], 2, mean_coefficients)
    local("synaptic_conductance", lambda p: p[4], 3, cov_coefficients, lambda V, k: V[0, 0])
    local("harmonic_oscillator_square", lambda p: p[5], 3, cov_coefficients)

    # closed-form moments: the moment equations for every t
    def closed(name, mean, var):
        problem = getattr(ivp, name)

        def rel(U, D, a, o):
            x0, drift, sigma = problem()[:3]
            b = lambda x: with_time(drift)(x, 0.)
            s = lambda x: with_time(sigma)(x, 0.)
            M = jax.jacfwd(b)(x0)
            d = x0.shape[0]
            m = o["m"] if mean else 0 * x0
            V = o["v"].reshape((d, d))
            # E[sigma sigma^T] for sigma affine in x
            A = lambda x: s(x) @ s(x).T
            H = jax.jacfwd(jax.jacfwd(A))(x0)
            ES = A(m) + 0.5 * jnp.einsum("abij,ij->ab", H, V)
            r = {"variance equation": Eq(o["dv"].reshape((d, d)), M @ V + V @ M.T + ES), "variance at 0": Eq(o["v0"].reshape((d, d)), jnp.zeros((d, d)))}
            if mean:
                r["mean equation"] = Eq(o["dm"], M @ m + b(0 * x0))
                r["mean at 0"] = Eq(o["m0"], x0)
            return r
        out.append(Contract(f"{name}: moment equations", [f"utils.ivp.{name}"], closed_code(problem, mean, var), rel, t, {}, [], [], [{}], samples=4))

    def closed_code(problem, mean, var):
        def code(U, D, t):
            p = problem()
            v = var(p)
            r = dict(v=v(t), dv=jax.jacfwd(v)(t), v0=v(0.))
            if mean:
                m = mean(p)
                r.update(m=m(t), dm=jax.jacfwd(m)(t), m0=m(0.))
            return r
        return code
    closed("ibm", None, lambda p: p[3])
    closed("square_matrix_ibm", None, lambda p: p[3])
    closed("double_ibm", None, lambda p: p[3])
    closed("gbm", lambda p: p[3], lambda p: p[4])

    # the harmonic oscillator: matrix exponential, quadrature of the exact variance integral
    def harmonic(name):
        problem = getattr(ivp, name)

        def code(U, D, t):
            p = problem()
            return p[3](t), p[4](t)

        def rel(U, D, a, o):
            x0, drift, sigma = problem()[:3]
            M = jax.jacfwd(lambda x: with_time(drift)(x, 0.))(x0)
            C = with_time(sigma)(x0, 0.)
            E = jax.scipy.linalg.expm
            q = lambda s: (E(M * s) @ C) @ (E(M * s) @ C).T
            return {"mean": Eq(o[0], E(M * a["t"]) @ x0), "variance up to quadrature": Eq(o[1], trapezoid(q, a["t"], 1000), 1e-4)}
        out.append(Contract(f"{name}: moments", [f"utils.ivp.{name}"], code, rel, t, {}, [], [], [{}], samples=6))

        def lcode(U, D, x, t):
            _, drift, sigma, *_ = problem()
            return with_time(drift)(x, t), with_time(sigma)(x, t)

        def lrel(U, D, a, o):
            x0, drift, sigma = problem()[:3]
            M = jax.jacfwd(lambda x: with_time(drift)(x, 0.))(x0)
            return {"linear drift": Eq(o[0], M @ a["x"]), "constant diffusion": Eq(o[1], with_time(sigma)(x0, 0.))}
        out.append(Contract(f"{name}: linear", [f"utils.ivp.{name}"], lcode, lrel, X(2), {}, [], [], [{}], samples=6))
    harmonic("harmonic_oscillator")
    harmonic("harmonic_oscillator_square")

    # square-diffusion variants of a problem
    def variant(name, of):
        def code(U, D, x, t):
            x0, drift, sigma = getattr(ivp, name)()[:3]
            S = with_time(sigma)(x, t)
            return x0, with_time(drift)(x, t), S, S @ S.T

        def rel(U, D, a, o):
            x0, drift, sigma = getattr(ivp, of)()[:3]
            S = with_time(sigma)(a["x"], a["t"])
            d = x0.shape[0]
            return {"initial state": Eq(o[0], x0), "drift": Eq(o[1], with_time(drift)(a["x"], a["t"])),
                    "square": Eq(o[2], o[2] + jnp.zeros((d, d))), "diffusion covariance": Eq(o[3], S @ S.T)}
        out.append(Contract(f"{name} adapts {of}", [f"utils.ivp.{name}", f"utils.ivp.{of}"], code, rel, X(2), {}, [], [], [{}], samples=6))
    variant("square_matrix_fhn", "fhn")
    variant("square_matrix_ibm", "ibm")

    # the reduced synaptic problem is the conductance part of the full one
    def rcode(U, D, x, t):
        x0, drift, sigma = ivp.synaptic_conductance_reduced()[:3]
        S = with_time(sigma)(x, t)
        return x0, with_time(drift)(x, t), S @ S.T

    def rrel(U, D, a, o):
        x0, drift, sigma = ivp.synaptic_conductance()[:3]
        z = jnp.concatenate([jnp.zeros((1,)), a["x"]])
        S = with_time(sigma)(z, a["t"])
        return {"initial state": Eq(o[0], x0[1:]), "drift": Eq(o[1], with_time(drift)(z, a["t"])[1:]),
                "diffusion covariance": Eq(o[2], (S @ S.T)[1:, 1:])}
    out.append(Contract("synaptic_conductance_reduced is the conductance part of synaptic_conductance",
                        ["utils.ivp.synaptic_conductance_reduced", "utils.ivp.synaptic_conductance"], rcode, rrel, X(2), {}, [], [], [{}], samples=6))
    return out
