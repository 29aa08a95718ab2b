"""S21: calibration of the diffusion."""
from jxv.harness import *
from contracts.common import *
from contracts.filt import inv


def contracts():
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    args = [Arg("z", ("N", "d")), Arg("S", ("N", "d", "d"), "psd"), Arg("s")]

    def code(U, D, z, S, s):
        return mle_diffusion(z, S), mle_diffusion(s * z, S)

    def rel(U, D, a, o):
        q = jax.vmap(lambda z, S: z @ (inv(S) @ z))(a["z"], a["S"])
        v = jnp.sum(q) / (D.N * D.d)
        return {"mean quadratic form": Eq(o[0], v), "scaling": Eq(o[1], a["s"] ** 2 * v)}
    num = [dict(N=1, d=1), dict(N=3, d=1), dict(N=2, d=3), dict(N=7, d=2)]
    return [Contract("calibration", ["probnum.calibration.mle_diffusion"], code, rel, args, {}, ["N", "d"], num[:3], num, samples=10)]
