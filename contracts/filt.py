"""Reference Gaussian filtering step, written from the textbook formulas."""
import inspect

import jax
import jax.numpy as jnp

from jxv.terms import Unsupported


def inv(S):
    return jax.scipy.linalg.solve(S, jnp.eye(S.shape[0]), assume_a="pos")


def ref_predict(m, P, A, Q, xi):
    return A @ m + xi, A @ P @ A.T + Q


def ref_update(m, P, c, H, R):
    S = H @ P @ H.T + R
    G = P @ H.T @ inv(S)
    return m - G @ c, P - G @ H @ P, S


def ref_step(obs, m, P, A, Q, xi, R, t):
    m, P = ref_predict(m, P, A, Q, xi)
    c = obs(m, t)
    H = jax.jacfwd(lambda z: obs(z, t))(m)
    m, P, S = ref_update(m, P, c, H, R)
    return m, P, S, c


class Callee:
    """Call of a contracted function: in the symbolic run the callee is replaced by its contract, i.e. its
    arguments are recorded (to be checked against what the caller must pass) and its result is arbitrary.
    In the numeric replay nothing is replaced."""

    def __init__(self, module, name):
        self.module, self.name, self.calls, self.result = "bayesian_sde_solver." + module, name, [], None

    def stubs(self, mods):
        real = getattr(mods[self.module], self.name)
        sig = inspect.signature(real)

        def call(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            self.calls.append(b.arguments)
            return self.result(b.arguments)
        return [(real, call)]

    def run(self, result, f):
        """f(), and the arguments of the only call it makes (None in the numeric replay)."""
        self.calls, self.result = [], result
        out = f()
        if len(self.calls) > 1:
            raise Unsupported(f"{self.name} is called {len(self.calls)} times")
        return out, (self.calls[0] if self.calls else None)


def ode_filter(f, m, P, A, Q, xi, R, h, N, ns, zeroth):
    """Reference ODE filter: state coordinate-major with ns states per coordinate.  The k-th step observes
    x' - f(x, k h) = 0; zeroth order linearises with the field held constant."""
    obs = ode_residual(f, ns, zeroth)
    p = R.shape[0]

    def step(x, k):
        m, P, S, c = ref_step(obs, x[0], x[1], A, Q, xi, R, h * (k + 1.0))
        return (m, P, S, c), None
    out, _ = jax.lax.scan(step, (m, P, jnp.zeros((p, p)), jnp.zeros(p)), jnp.arange(N).astype(jnp.float64))
    return out


def ode_residual(f, ns, zeroth):
    def obs(x, t):
        v = f(x[::ns], t)
        return x[1::ns] - (jax.lax.stop_gradient(v) if zeroth else v)
    return obs


class States:
    """Number of states per coordinate: a number, or (None) every number from 4 on, the size s."""

    def __init__(self, ns):
        self.ns = ns
        self.shape = f"{ns}*d" if ns else "s*d"
        self.dims = ["d", "N"] if ns else ["d", "s", "N"]
        self.title = f"{ns} states" if ns else "4 or more states"

    def of(self, D):
        return self.ns or D.s

    def sizes(self, ds):
        return [x if self.ns else dict(x, s=s) for x, s in zip(ds, (4, 6, 5, 4, 7))]


def block_eye(d, B):
    """I_d (x) B."""
    n = B.shape[0]
    X = jnp.where(jnp.arange(d)[:, None, None, None] == jnp.arange(d)[None, None, :, None], B[None, :, None, :], 0.0)
    return X.reshape((d * n, d * n))
