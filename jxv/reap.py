"""
Keys consumed by a program: the program is traced and its jaxpr re-evaluated with the key of every draw
(random_bits) and of every split added to the results, across scans (one row per iteration) and calls.
Nothing else of the program is changed; what the keys do not depend on is dropped.
"""
import jax
import jax.numpy as jnp
from jax import core
from jax.interpreters import partial_eval as pe

from .terms import Unsupported


def consumed(f, *args):
    """(keys of the draws, keys that were split) made by f(*args): lists of uint32 arrays (..., 2)."""
    flat, tree = jax.tree_util.tree_flatten(args)
    jaxpr = jax.make_jaxpr(lambda *xs: f(*jax.tree_util.tree_unflatten(tree, xs)))(*flat)
    kinds = []

    def keys(*xs):
        _, ks = run(jaxpr.jaxpr, jaxpr.consts, xs)
        kinds[:] = [k for k, _ in ks]
        return [v for _, v in ks]
    only = jax.make_jaxpr(keys)(*flat)
    small, used = pe.dce_jaxpr(only.jaxpr, [True] * len(only.jaxpr.outvars))
    out = core.eval_jaxpr(small, only.consts, *[x for x, u in zip(flat, used) if u])
    return [v for k, v in zip(kinds, out) if k == "draw"], [v for k, v in zip(kinds, out) if k == "split"]


CALLS = {"pjit": "jaxpr", "closed_call": "call_jaxpr", "core_call": "call_jaxpr", "remat": "jaxpr", "checkpoint": "jaxpr",
         "custom_jvp_call": "call_jaxpr", "custom_vjp_call_jaxpr": "fun_jaxpr", "custom_vjp_call": "call_jaxpr", "xla_call": "call_jaxpr"}


def inner(eqn):
    for v in eqn.params.values():
        for q in (v if isinstance(v, (tuple, list)) else (v,)):
            if isinstance(q, core.ClosedJaxpr):
                yield q.jaxpr
            elif isinstance(q, core.Jaxpr):
                yield q


def draws_in(jaxpr):
    return any(e.primitive.name in ("random_bits", "random_split", "threefry2x32", "random_gamma") or any(draws_in(j) for j in inner(e))
               for e in jaxpr.eqns)


def run(jaxpr, consts, args):
    env, keys = {}, []

    def read(v):
        return v.val if isinstance(v, core.Literal) else env[v]
    for v, x in list(zip(jaxpr.constvars, consts)) + list(zip(jaxpr.invars, args)):
        env[v] = x
    for e in jaxpr.eqns:
        ins = [read(v) for v in e.invars]
        name = e.primitive.name
        if name in ("threefry2x32", "random_gamma"):
            raise Unsupported(f"draw by {name}")
        if name in ("random_bits", "random_split"):
            keys.append(("draw" if name == "random_bits" else "split", jax.random.key_data(ins[0])))
        if name in CALLS and draws_in(e.params[CALLS[name]].jaxpr if hasattr(e.params[CALLS[name]], "jaxpr") else e.params[CALLS[name]]):
            j = e.params[CALLS[name]]
            outs, ks = run(j.jaxpr, j.consts, ins) if hasattr(j, "jaxpr") else run(j, (), ins)
            keys += ks
        elif name == "scan" and draws_in(e.params["jaxpr"].jaxpr):
            outs, ks = scan(e.params, ins)
            keys += ks
        elif any(draws_in(j) for j in inner(e)) and name not in ("random_bits", "random_split"):
            raise Unsupported(f"draws inside {name}")
        else:
            sub, params = e.primitive.get_bind_params(e.params)
            outs = e.primitive.bind(*sub, *ins, **params)
            if not e.primitive.multiple_results:
                outs = [outs]
        for v, x in zip(e.outvars, outs):
            env[v] = x
    return [read(v) for v in jaxpr.outvars], keys


def scan(p, ins):
    nc, nk, j = p["num_consts"], p["num_carry"], p["jaxpr"]
    consts, carry, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
    kinds = []

    def body(c, x):
        outs, ks = run(j.jaxpr, j.consts, list(consts) + list(c) + list(x))
        kinds[:] = [k for k, _ in ks]
        return tuple(outs[:nk]), (tuple(outs[nk:]), tuple(v for _, v in ks))
    xs = tuple(xs)
    if xs:
        c, (ys, ks) = jax.lax.scan(body, tuple(carry), xs, reverse=p["reverse"])
    else:
        c, (ys, ks) = jax.lax.scan(lambda c, _: body(c, ()), tuple(carry), jnp.arange(p["length"]), reverse=p["reverse"])
    return list(c) + list(ys), list(zip(kinds, ks))
