"""S01: conversion between the Ito and the Stratonovich form."""
from jxv.harness import *


def spec_correction(g, x, t):
    """c_i = sum_{j,k} g_{jk}(x,t) d g_{ik}/d x_j (x,t)   (Kloeden & Platen 4.9)."""
    J = jax.jacfwd(lambda z: g(z, t))(x)
    return jnp.einsum("ikj,jk->i", J, g(x, t))


def contracts():
    import bayesian_sde_solver.ito_stratonovich as M
    args = [Arg("x", ("d",)), Arg("t")]
    ufs = {"f": ("d",), "g": ("d", "m")}
    inst = [dict(d=1, m=1), dict(d=2, m=1), dict(d=1, m=2), dict(d=2, m=2), dict(d=3, m=2), dict(d=2, m=3)]

    def conv(U, D, x, t):
        a, b = M.to_ito(U.f, U.g)
        p, q = M.to_stratonovich(U.f, U.g)
        return a(x, t), b(x, t), p(x, t), q(x, t)

    def rel(U, D, a, o):
        x, t = a["x"], a["t"]
        c = spec_correction(U.g, x, t)
        f, g = U.f(x, t), U.g(x, t)
        return {"ito drift": Eq(o[0], f + c / 2), "ito diffusion unchanged": Eq(o[1], g),
                "stratonovich drift": Eq(o[2], f - c / 2), "stratonovich diffusion unchanged": Eq(o[3], g)}

    def round_(U, D, x, t):
        a, b = M.to_stratonovich(*M.to_ito(U.f, U.g))
        p, q = M.to_ito(*M.to_stratonovich(U.f, U.g))
        return a(x, t), b(x, t), p(x, t), q(x, t)

    def rrel(U, D, a, o):
        f, g = U.f(a["x"], a["t"]), U.g(a["x"], a["t"])
        return {"ito then stratonovich": Eq((o[0], o[1]), (f, g)), "stratonovich then ito": Eq((o[2], o[3]), (f, g))}

    fn = ["ito_stratonovich.to_ito", "ito_stratonovich.to_stratonovich", "ito_stratonovich.drift_correction"]
    return [
        Contract("conversion", fn, conv, rel, args, ufs, ["d", "m"], inst, inst),
        Contract("inverse", fn, round_, rrel, args, ufs, ["d", "m"], inst, inst[:4]),
    ]
