"""
Numeric replay of traced code with controlled normal draws ("tape"): each distinct (key, shape)
is one vector of standard normals that the caller chooses.  Used to compute exact conditional laws
of affine-Gaussian steps of the real code, without Monte Carlo.
"""
import numpy as np
import jax
import jax.numpy as jnp
from jax import core


class Tape:
    def __init__(self, z=None):
        self.z = {} if z is None else z
        self.order = []
        self.rng = np.random.default_rng(12345)

    def draw(self, key, shape):
        kd = np.asarray(jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key)
        base = kd.reshape(-1, kd.shape[-1])
        shape = tuple(shape)
        out = []
        rest = shape[len(kd.shape) - 1:]
        if int(np.prod(kd.shape[:-1])) == 1:
            rest = shape
        for b in base:
            k = (b.tobytes(), rest)
            if k not in self.z:
                self.z[k] = self.rng.normal(size=rest)
            if k not in self.order:
                self.order.append(k)
            out.append(self.z[k])
        return jnp.asarray(np.stack(out).reshape(shape))


def psd_root(c):
    c = np.asarray(c, dtype=float)
    w, v = np.linalg.eigh((c + c.T) / 2)
    return v * np.sqrt(np.clip(w, 0, None))


def run(closed, args, tape):
    return _eval(closed.jaxpr, closed.consts, args, tape)


def has_draw(jaxpr, memo={}):
    key = id(jaxpr)
    if key in memo:
        return memo[key][0]
    r = False
    for e in jaxpr.eqns:
        if e.primitive.name == "pjit" and e.params["name"] in ("_normal", "_normal_real", "_multivariate_normal"):
            r = True
        for v in e.params.values():
            for s in _subs(v):
                if has_draw(s):
                    r = True
    memo[key] = (r, jaxpr)
    return r


def _subs(v):
    if isinstance(v, core.ClosedJaxpr):
        return [v.jaxpr]
    if isinstance(v, core.Jaxpr):
        return [v]
    if isinstance(v, (tuple, list)):
        return [s for x in v for s in _subs(x)]
    return []


def _eval(jaxpr, consts, args, tape):
    env = {}

    def read(v):
        return v.val if isinstance(v, core.Literal) else env[v]
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for e in jaxpr.eqns:
        ins = [read(v) for v in e.invars]
        n = e.primitive.name
        if n == "pjit":
            nm = e.params["name"]
            if nm in ("_normal", "_normal_real") and "key" in str(e.invars[0].aval.dtype):
                outs = [tape.draw(ins[0], e.outvars[0].aval.shape)]
            elif nm == "_multivariate_normal":
                key, mean, cov = ins
                sh = e.outvars[0].aval.shape
                z = tape.draw(key, sh)
                outs = [mean + z @ psd_root(cov).T]
            elif has_draw(e.params["jaxpr"].jaxpr):
                outs = _eval(e.params["jaxpr"].jaxpr, e.params["jaxpr"].consts, ins, tape)
            else:
                outs = e.primitive.bind(*ins, **e.params)
        elif n == "scan" and has_draw(e.params["jaxpr"].jaxpr):
            p = e.params
            nc, ncar = p["num_consts"], p["num_carry"]
            cs, car, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
            ys = []
            rng = range(p["length"])
            for k in (reversed(rng) if p["reverse"] else rng):
                o = _eval(p["jaxpr"].jaxpr, p["jaxpr"].consts, cs + car + [x[k] for x in xs], tape)
                car = list(o[:ncar])
                ys.append(o[ncar:])
            if p["reverse"]:
                ys.reverse()
            ny = len(e.outvars) - ncar
            outs = car + [jnp.stack([y[q] for y in ys]) for q in range(ny)]
        elif n in ("custom_jvp_call", "custom_vjp_call", "remat", "checkpoint", "closed_call") and any(
                has_draw(s) for v in e.params.values() for s in _subs(v)):
            cj = e.params.get("call_jaxpr") or e.params.get("jaxpr")
            outs = _eval(cj.jaxpr if hasattr(cj, "jaxpr") else cj, getattr(cj, "consts", []), ins, tape)
        elif n == "cond" and any(has_draw(b.jaxpr) for b in e.params["branches"]):
            b = e.params["branches"][int(ins[0])]
            outs = _eval(b.jaxpr, b.consts, ins[1:], tape)
        elif n == "while" and (has_draw(e.params["body_jaxpr"].jaxpr)):
            p = e.params
            a, b = p["cond_nconsts"], p["body_nconsts"]
            cc, bc, st = ins[:a], ins[a:a + b], ins[a + b:]
            while bool(_eval(p["cond_jaxpr"].jaxpr, p["cond_jaxpr"].consts, cc + st, tape)[0]):
                st = _eval(p["body_jaxpr"].jaxpr, p["body_jaxpr"].consts, bc + st, tape)
            outs = st
        else:
            outs = e.primitive.bind(*ins, **e.params)
        if not isinstance(outs, (list, tuple)):
            outs = [outs]
        for v, o in zip(e.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]
