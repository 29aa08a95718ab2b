"""
Contracts, obligations, and the three ways of settling one:

  proved   : every obligation generated from the traced code is discharged by exact normalisation,
             for all values, (symbolic) sizes and iterations;
  bounded  : the same obligation discharged only for stated concrete sizes (never counted as proved);
  replay   : the real code executed on concrete inputs and compared with the contract (finds the
             failing input of a violation, and cross-checks the prover on the unchanged tree).
"""
import itertools
import json
import os
import time
import traceback
import zlib

import numpy as np

from .front import *
from .front import _orig_linspace
from .terms import *
from . import terms as TT
from .arr import *
from . import interp as I
from . import laws
from . import numeric

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Arg:
    """kind: real | pos | unit (0<x<1) | key | psd | lower | int"""

    def __init__(self, name, shape=(), kind="real", lo=None, hi=None, gen=None):
        self.name, self.shape, self.kind, self.lo, self.hi, self.gen = name, tuple(shape), kind, lo, hi, gen


class Eq:
    def __init__(self, lhs, rhs, tol=1e-8):
        self.lhs, self.rhs, self.tol = lhs, rhs, tol


class Law:
    """lhs[..., :] is conditionally Gaussian with the given mean and covariance.
    batch = number of leading (time) axes: rows are conditionally independent given their past."""

    def __init__(self, lhs, mean, cov, batch=0, tol=1e-7):
        self.lhs, self.mean, self.cov, self.batch, self.tol = lhs, mean, cov, batch, tol


class Distinct:
    """The listed key arrays (shape (..., 2)) are pairwise distinct, within and across the list, and distinct
    from every key of `apart`."""

    def __init__(self, *keys, apart=()):
        self.keys, self.apart = tuple(keys), tuple(apart)
        self.tol = 0


class Contract:
    def __init__(self, name, functions, code, rel, args, ufs=None, dims=None, instances=(), numeric=(), stubs=(),
                 symbolic=True, samples=24, law=False, note="", fixed=(), canary=None, replay_stubs=(),
                 direct=2, scales=(0.3, 1.0, 3.0), jit=True, prove=True, tlimit=90, numlimit=20, lawsamples=2,
                 complete=False, thorough_instances=(), thorough_numeric=(), loops=("N",), bound=None):
        self.name, self.functions, self.code, self.rel = name, functions, code, rel
        self.args, self.ufs, self.dims = args, ufs or {}, dims or []
        self.instances, self.numeric = list(instances), list(numeric)
        self.stubs = stubs if callable(stubs) else list(stubs)
        self.tlimit, self.numlimit, self.lawsamples, self.complete = tlimit, numlimit, lawsamples, complete
        self.thorough_instances, self.thorough_numeric = list(thorough_instances), list(thorough_numeric)
        self.loops = loops
        self.bound = bound      # sizes the contract is written for, when these are not all sizes
        self.symbolic, self.samples, self.law, self.note = symbolic, samples, law, note
        self.fixed = fixed
        self.canary = canary
        self.direct = direct
        self.scales = scales
        self.jit = jit
        self.prove = prove


    def has_eq(self, r):
        return r is None or any(isinstance(e, (Eq, Distinct)) for e in r.values())


class NS:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def shape_eval(shape, dims):
    return tuple(eval(s, {}, dims) if isinstance(s, str) else s for s in shape)


# ------------------------------------------------------------------------ dimension branches

BRANCHES = []


def _install_branch_recorder():
    import sys as _s
    cls = shape_poly._DimExpr
    for nm in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        orig = getattr(cls, nm, None)
        if orig is None:
            continue

        def wrapper(self, other, orig=orig, nm=nm):
            fr = _s._getframe(1)
            if str(self) == str(other):
                return orig(self, other)
            if fr.f_code.co_filename.startswith(os.path.realpath(REPO) + os.sep):
                BRANCHES.append((str(self), str(other), nm, f"{fr.f_code.co_filename}:{fr.f_lineno}"))
                if nm in ("__eq__", "__ne__"):
                    try:
                        lo, hi = (self - other).bounds()
                        if lo > 0 or hi < 0:
                            return nm == "__ne__"
                    except Exception:
                        pass
                    raise Unsupported(f"size-dependent branch {self} {nm} {other}")
            return orig(self, other)
        setattr(cls, nm, wrapper)


_install_branch_recorder()

PATHS = {"on": False, "choices": [], "pos": 0}
THRESHOLDS = set()      # float constants that traced values are compared with
COMPARE = ("lt", "le", "gt", "ge", "eq", "ne")


def note_threshold(x):
    try:
        x = np.asarray(x)
        if x.ndim == 0 and x.dtype.kind == "f" and np.isfinite(x) and 1e-6 <= abs(float(x)) <= 1e4:
            THRESHOLDS.add(float(x))
    except Exception:
        pass


def frame_thresholds(tracer):
    """Constants of the comparison that produced a traced boolean."""
    try:
        fr = tracer._trace.frame
        v = fr.tracer_to_var[id(tracer)]
        for e in fr.eqns:
            if v in e.outvars:
                for w in e.invars:
                    note_threshold(w.val if isinstance(w, core.Literal) else fr.constvar_to_val.get(w))
    except Exception:
        pass


def jaxpr_thresholds(closed):
    """Constants that values are compared with anywhere in a program."""
    def walk(j, consts):
        env = dict(zip(j.constvars, consts))
        for e in j.eqns:
            if e.primitive.name in COMPARE:
                for w in e.invars:
                    if isinstance(w, core.Literal):
                        note_threshold(w.val)
                    elif w in env:
                        note_threshold(env[w])
            for p in e.params.values():
                for q in (p if isinstance(p, (tuple, list)) else (p,)):
                    if isinstance(q, core.ClosedJaxpr):
                        walk(q.jaxpr, q.consts)
                    elif isinstance(q, core.Jaxpr):
                        walk(q, [None] * len(q.constvars))
    try:
        walk(closed.jaxpr, closed.consts)
    except Exception:
        pass


def size_decided(tracer):
    """Truth of a comparison of an affine function of the sizes with a constant, when the bounds of the sizes settle it."""
    try:
        fr = tracer._trace.frame
        defs = {v: e for e in fr.eqns for v in e.outvars}

        def ival(w):
            if isinstance(w, core.Literal):
                return float(w.val), float(w.val)
            e = defs.get(w)
            if e is None:
                x = float(fr.constvar_to_val[w])
                return x, x
            nm = e.primitive.name
            if nm == "dim_as_value":
                return tuple(map(float, e.params["dim"].bounds()))
            if nm in ("convert_element_type", "copy"):
                return ival(e.invars[0])
            if nm == "pjit":
                raise ValueError
            a = [ival(v) for v in e.invars]
            if nm == "neg":
                return -a[0][1], -a[0][0]
            if nm == "add":
                return a[0][0] + a[1][0], a[0][1] + a[1][1]
            if nm == "sub":
                return a[0][0] - a[1][1], a[0][1] - a[1][0]
            if nm == "mul":
                c = [x * y for x in a[0] for y in a[1]]
                if any(x != x for x in c):
                    raise ValueError
                return min(c), max(c)
            raise ValueError
        e = defs[fr.tracer_to_var[id(tracer)]]
        (a, b), (c, d) = ival(e.invars[0]), ival(e.invars[1])
        yes = {"eq": a == b == c == d, "ne": b < c or d < a, "lt": b < c, "le": b <= c, "gt": a > d, "ge": a >= d}
        no = {"eq": yes["ne"], "ne": yes["eq"], "lt": yes["ge"], "le": yes["gt"], "gt": yes["le"], "ge": yes["lt"]}
        nm = e.primitive.name
        return True if yes[nm] else False if no[nm] else None
    except Exception:
        return None


def _install_bool_oracle():
    orig = core.ShapedArray._bool

    def b(tracer):
        if PATHS["on"]:
            known = size_decided(tracer)
            if known is not None:
                return known
            frame_thresholds(tracer)
            p = PATHS["pos"]
            if p >= len(PATHS["choices"]):
                PATHS["choices"].append(True)
            PATHS["pos"] += 1
            if "conds" in PATHS:
                PATHS["conds"].append(tracer)
            return PATHS["choices"][p]
        return orig(tracer.aval, tracer)
    core.ShapedArray._bool = staticmethod(b)


_install_bool_oracle()


def explore(run, most=16):
    """Results of run() along every path through Python branches on traced values (at most `most`)."""
    out, choices = [], []
    while True:
        PATHS.update(on=True, choices=choices, pos=0)
        try:
            r = run()
        finally:
            PATHS["on"] = False
        out.append(r)
        choices = PATHS["choices"][:PATHS["pos"]]
        while choices and not choices[-1]:
            choices.pop()
        if not choices:
            return out
        choices[-1] = False
        if len(out) >= most:
            raise Unsupported("too many branches on values")
        jax.clear_caches()


# ----------------------------------------------------------------------------------- symbolic


class Sym:
    """A traced contract instance: code outputs and relation sides as lazily indexed terms."""

    def __init__(self, c, mods, dims):
        self.c = c
        self.dims = dims
        names = list(c.dims)
        if dims is None:
            ds = dict(zip(names, sym_dims(names))) if names else {}
        else:
            ds = dict(dims)
        self.ds = ds
        D = NS(**ds)
        U = NS(**{k: UF(k, shape_eval(v, ds)) for k, v in c.ufs.items() if not callable(v)})
        for k, v in c.ufs.items():
            if callable(v):
                setattr(U, k, v(U, D))
        avals, arrs = [], []
        for a in c.args:
            sh = shape_eval(a.shape, ds)
            if a.kind == "key":
                avals.append(sds(tuple(sh) + (2,), jnp.uint32))
                arrs.append(I.root_key(a.name, tuple(I.dim_of(s) for s in sh)))
            else:
                avals.append(sds(sh))
                if a.kind in ("pos", "unit"):
                    TT.POSITIVE.add(a.name)
                if a.kind in ("psd", "pd"):
                    TT.SYMMETRIC.add(a.name)
                if a.kind == "pd":
                    TT.PDIAG.add(a.name)
                if a.kind == "lower":
                    arrs.append(Arr(tuple(I.dim_of(s) for s in sh), lambda *i, n=a.name: iv_ge(i[-2] - i[-1]) *
                                    sym_atom((n, tuple(i)))))
                else:
                    arrs.append(sym_array(a.name, tuple(I.dim_of(s) for s in sh)))
        self.arrs = arrs

        def code(*xs):
            return c.code(U, D, **{a.name: x for a, x in zip(c.args, xs)})

        self.jaxpr, tree = trace(code, avals, mods, c.stubs)
        jaxpr_thresholds(self.jaxpr)
        outs = I.eval_closed(self.jaxpr, arrs)
        self.outs = outs
        oavals = [sds(v.aval.shape, v.aval.dtype) for v in self.jaxpr.jaxpr.outvars]
        meta = {}

        def rel(*xs):
            n = len(avals)
            o = jax.tree_util.tree_unflatten(tree, list(xs[n:]))
            r = c.rel(U, D, {a.name: x for a, x in zip(c.args, xs[:n])}, o)
            flat = []
            for k, e in r.items():
                if isinstance(e, Law):
                    meta[k] = ("law", e.batch)
                    flat += [e.lhs, e.mean, e.cov]
                elif isinstance(e, Distinct):
                    if not e.keys:
                        raise Unsupported("no draws")
                    meta[k] = ("keys", len(e.keys) + len(e.apart), len(e.keys))
                    flat += list(e.keys) + list(e.apart)
                else:
                    ls, t1 = jax.tree_util.tree_flatten(e.lhs)
                    rs, t2 = jax.tree_util.tree_flatten(e.rhs)
                    if len(ls) != len(rs):
                        raise Unsupported("structure mismatch")
                    meta[k] = ("eq", len(ls))
                    flat += [jnp.asarray(x) for x in ls] + [jnp.asarray(x) for x in rs]
            return flat

        rj, _ = trace(rel, avals + oavals, mods, [])
        self.rjaxpr = rj
        flat = I.eval_closed(rj, arrs + outs)
        self.items = []
        p = 0
        for k, m in meta.items():
            if m[0] == "law":
                self.items.append((k, "law", m[1], flat[p:p + 3]))
                p += 3
            elif m[0] == "keys":
                self.items.append((k, "keys", m[2], flat[p:p + m[1]]))
                p += m[1]
            else:
                n = m[1]
                self.items.append((k, "eq", None, list(zip(flat[p:p + n], flat[p + n:p + 2 * n]))))
                p += 2 * n


def split_cases(idx, loopdims):
    """Case analysis k=0 / k=k'+1 on indices that range over a loop length."""
    cases = [dict()]
    for l in idx:
        for v in l.vars():
            if v.kind == "ix" and any(w in v.ext.vars() for w in loopdims):
                new = []
                q = ix(v.ext - 1)
                for c in cases:
                    new.append({**c, v: Lin.of(0)})
                    new.append({**c, v: q + 1})
                cases = new
    return cases


def unfold_top(t):
    """Unfold the most advanced carry atoms (at any depth) by one iteration."""
    best = None
    for a in t.atoms():
        if a.kind == "carry":
            off = a.data[2]
            lo = lmin(off)
            if lo is not None and lo >= 1 and (best is None or off.k > best):
                best = off.k
    if best is None:
        return None

    def f(a):
        if a.kind == "carry" and a.data[2].k == best and lmin(a.data[2]) is not None and lmin(a.data[2]) >= 1:
            uid, s, k, idx = a.data
            new, _ = I.SCANS[uid].step(k - 1)
            return new[s](*idx)
        return None
    f.kinds = {"carry"}
    return t.replace(f)


def carries_of(t):
    out = {}
    for a in t.atoms():
        if a.kind == "carry":
            out.setdefault(a.data[0], set()).add(a.data[1])
    return out


class Unifier:
    """Relational (bisimulation) invariants between loops: slot s of loop A == slot r of loop B."""

    def __init__(self):
        self.pairs = {}

    def rename(self, t):
        def f(a):
            if a.kind == "carry":
                uid, s, k, idx = a.data
                tgt = self.pairs.get((uid, s))
                if tgt is not None:
                    return REBUILD["carry"]((tgt[0], tgt[1], k, idx))
            return None
        return t.replace(f) if self.pairs else t

    def zero(self, t):
        if is_zero(t):
            return True
        g = laws.gram_rewrite(t)
        return g is not t and is_zero(self.rename(g))

    def try_unify(self, A, B):
        """Express loop B's slots by loop A's.  Returns True on success."""
        a, b = I.SCANS[A], I.SCANS[B]
        if a.length != b.length:
            return False
        la = [s for s in range(len(a.init)) if s not in a.subst]
        lb = [s for s in range(len(b.init)) if s not in b.subst]
        cand = {}
        for s in lb:
            cand[s] = []
            for r in la:
                if a.shapes[r] != b.shapes[s]:
                    continue
                try:
                    if all(is_zero(self.rename(a.init[r](*i)) - self.rename(b.init[s](*i)))
                           for i in all_indices(a.shapes[r])):
                        cand[s].append(r)
                except Unsupported:
                    pass
        if any(not v for v in cand.values()):
            cand = {s: v for s, v in cand.items() if v}
        if not cand:
            return False
        k = ix(a.length)
        for combo in itertools.islice(itertools.product(*[cand[s] for s in cand]), 24):
            mp = dict(zip(cand, combo))
            saved = dict(self.pairs)
            while mp:
                self.pairs = {**saved, **{(B, s): (A, r) for s, r in mp.items()}}
                na, _ = a.step(k)
                nb, _ = b.step(k)
                bad = []
                for s, r in mp.items():
                    try:
                        ok = all(self.zero(self.rename(na[r](*i)) - self.rename(nb[s](*i)))
                                 for i in all_indices(a.shapes[r]))
                    except Unsupported:
                        ok = False
                    if not ok:
                        bad.append(s)
                if not bad:
                    return True
                for s in bad:
                    mp.pop(s)
            self.pairs = saved
        return False


def prove_zero(t, idx, loopdims, uni, depth=0):
    """True if t == 0 for all values of its free indices.  Returns (ok, residual)."""
    t = uni.rename(t)
    if is_zero(t):
        return True, None
    g = laws.gram_rewrite(t)
    if g is not t:
        t = uni.rename(g)
        if is_zero(t):
            return True, None
    # unify loops
    cs = sorted(carries_of(t))
    if len(cs) >= 2 and depth < 4:
        for A, B in itertools.combinations(cs, 2):
            if any(k[0] == B for k in uni.pairs):
                continue
            if uni.try_unify(A, B):
                return prove_zero(t, idx, loopdims, uni, depth + 1)
    u = unfold_top(t)
    if u is not None:
        u = uni.rename(u)
        if is_zero(u):
            return True, None
    if depth < 4:
        cases = split_cases(idx, loopdims)
        if len(cases) > 1:
            ok = True
            res = None
            for c in cases:
                tt = t.subst(c)
                ids = [l.subst(c) for l in idx]
                if is_zero(tt):
                    continue
                uu = unfold_top(tt)
                if uu is not None and is_zero(uni.rename(uu)):
                    continue
                if uu is not None:
                    cs = sorted(carries_of(uu))
                    done = False
                    for A, B in itertools.combinations(cs, 2):
                        if uni.try_unify(A, B) and is_zero(uni.rename(uu)):
                            done = True
                            break
                    if done:
                        continue
                ok, res = False, (uu if uu is not None else tt)
                break
            if ok:
                return True, None
            e = I.expand_accumulators(t)
            return prove_zero(e, idx, loopdims, uni, depth + 1) if e is not None else (False, res)
    e = I.expand_accumulators(t) if depth < 6 else None
    if e is not None:
        return prove_zero(e, idx, loopdims, uni, depth + 1)
    return False, (u if u is not None else t)


def wkey(a, i):
    w = [a(*i, Lin.of(q)) for q in (0, 1)]
    while True:
        u = [unfold_top(t) for t in w]
        if u[0] is None:
            return I.key_term(I.key_of_words(*w))
        w = u


def prove_distinct(arrs, n=None):
    """Every two different positions hold different keys (splitting is injective and acyclic); the arrays from
    the n-th on are only kept apart from the first n."""
    for x, y in itertools.combinations_with_replacement(range(len(arrs)), 2):
        if n is not None and x >= n:
            continue
        a, b = arrs[x], arrs[y]
        for i in all_indices(a.shape[:-1]):
            for j in all_indices(b.shape[:-1]):
                ka = wkey(a, i)
                kb = wkey(b, j)
                e = laws.key_equal(ka, kb)
                if e is None:
                    return False, f"keys not separated: {ka} / {kb}"
                if x == y:
                    same = UNIT
                    for p, q in zip(i, j):
                        same = same * iv_eq(p - q)
                    e = e * (UNIT - same)
                if not is_zero(e):
                    return False, f"key reused: {ka} / {kb}: equal when {show(e)[:200]}"
    return True, None


def prove_law(name, batch, arrs, loopdims, uni):
    ok, msg = law_of(name, batch, arrs, loopdims, uni)
    if not ok and carries_in(arrs[0]):
        lhs = Arr(arrs[0].shape, lambda *i: expanded(arrs[0](*i)))
        again = law_of(name, batch, [lhs, *arrs[1:]], loopdims, uni)
        if again[0]:
            return again
    return ok, msg


def expanded(t):
    e = I.expand_accumulators(t)
    return t if e is None else e


def carries_in(a):
    return any(I.expand_accumulators(a(*i)) is not None for i in all_indices(a.shape))


def law_of(name, batch, arrs, loopdims, uni):
    lhs, mean, cov = arrs
    n = lhs.ndim
    results = []

    def norm(t):
        u = unfold_top(t)
        return uni.rename(u if u is not None else t)

    pre_cases = all_indices(lhs.shape[:batch])
    for pre in pre_cases:
        subs = split_cases(pre, loopdims)
        for sb in subs:
            p = tuple(l.subst(sb) for l in pre)
            for i in index_cases(lhs.shape[batch]):
                x = norm(lhs(*p, i))
                if contains_bad_draw(x):
                    return False, f"{name}: draw inside a nonlinear function"
                if laws.degree_in_draws(x) > 1:
                    return False, f"{name}: not affine in the draws: {show(x)[:300]}"
                mu = laws.expect(x)
                md = uni.rename(mean(*p, i))
                ok, r = pz(mu - md, uni, loopdims)
                if not ok:
                    return False, f"{name} mean[{p},{i}]: residual {show(r)[:400]}"
                for j in index_cases(lhs.shape[batch]):
                    y = norm(lhs(*p, j))
                    dy = y - laws.expect(y)
                    dx = x - mu
                    c = laws.expect(dx * dy)
                    c = laws.gram_rewrite(c)
                    cd = laws.gram_rewrite(uni.rename(cov(*p, i, j)))
                    ok, r = pz(c - cd, uni, loopdims)
                    if not ok:
                        return False, f"{name} cov[{p},{i},{j}]: residual {show(r)[:400]}"
                # freshness: the draws of step k occur at no other step
                for v in [w for l in p for w in l.vars() if w.kind == "ix"]:
                    w = Lin.of(Var("ix", f"other{v.name}", v.ext))
                    ok, why = fresh_draws(laws.draws_of(x), v, w)
                    if not ok:
                        return False, f"{name}: draws not fresh per step: {why}"
    return True, None


def fresh_draws(draws, v, w):
    """No draw used at step v is used at another step w."""
    for a in draws:
        for b in draws:
            other = {u: Lin.of(Var("ix", f"alt{u.name}", u.ext)) for u in b.fv if u.kind in ("b", "t", "l")}
            d2 = subst_data(b.data, {v: w, **other})
            ka = a.data[1] if a.data[0] == "normal" else a.data[1][0]
            kb = d2[1] if b.data[0] == "normal" else d2[1][0]
            e = laws.key_equal(ka, kb)
            if e is not None and not is_zero(e * (UNIT - iv_eq(Lin.of(v) - w))) and a.data[0] == b.data[0] == "normal" \
                    and a.data[2] == b.data[2]:
                for x, y in zip(a.data[3], d2[3]):
                    e = e * iv_eq(x - y)
            if e is None or not is_zero(e * (UNIT - iv_eq(Lin.of(v) - w))):
                return False, str(ka)
    return True, None


def pz(t, uni, loopdims=()):
    ok = is_zero(t)
    if not ok:
        t = laws.gram_rewrite(t)
        ok = is_zero(t)
    if not ok and len(carries_of(t)) >= 2:
        return prove_zero(t, (), loopdims, uni)
    return ok, t


def contains_bad_draw(x):
    return any(a.kind != "rnd" and laws.contains_rnd(a) for k in x.m for a, _ in k[1])


# ------------------------------------------------------------------------------------ numeric


def make_params(c, ds, rng, scale):
    ps = {}
    for k, v in c.ufs.items():
        if callable(v):
            continue
        sh = shape_eval(v, ds)
        no = int(np.prod(sh)) if sh else 1
        ps[k] = (rng.normal(size=(4, 96)), rng.normal(size=4), rng.normal(size=(no, 4)) * scale, rng.normal(size=no))
    return ps


class PFn:
    def __init__(self, params, oshape):
        self.p, self.oshape = params, tuple(int(s) for s in oshape)

    def __call__(self, *args):
        flat, _ = jax.tree_util.tree_flatten(args)
        z = []
        for a in flat:
            a = jnp.asarray(a)
            if a.dtype == jnp.uint32:
                a = (a % 1009).astype(f64) / 1009.0
            z.append(jnp.ravel(a).astype(f64))
        z = jnp.concatenate(z) if z else jnp.zeros(0)
        W, b, C, c0 = self.p
        n = z.shape[0]
        u = jnp.asarray(W)[:, :n] @ z / np.sqrt(max(n, 1))
        C, c0 = jnp.asarray(C), jnp.asarray(c0)
        out = C @ jnp.sin(u + jnp.asarray(b)) + c0 + 0.3 * C @ jnp.tanh(u) ** 2 + 0.2 * C @ u
        return out.reshape(self.oshape)


def gen_arg(a, ds, rng, scale):
    sh = tuple(int(s) for s in shape_eval(a.shape, ds))
    if a.gen is not None:
        return a.gen(rng, sh, ds)
    if a.kind == "key":
        n = int(np.prod(sh)) if sh else 1
        ks = np.stack([np.asarray(jax.random.PRNGKey(int(rng.integers(1 << 31)))) for _ in range(n)])
        return ks.reshape(sh + (2,))
    if a.kind == "pos":
        lo, hi = (a.lo or 0.02), (a.hi or 1.5)
        v = np.exp(rng.uniform(np.log(lo), np.log(hi), size=sh))
        return float(v) if sh == () else v
    if a.kind == "unit":
        v = rng.uniform(0, 1, size=sh)
        return float(v) if sh == () else v
    if a.kind in ("psd", "pd"):
        n = sh[-1]
        G = rng.normal(size=sh)
        return G @ np.swapaxes(G, -1, -2) / n + 0.05 * np.eye(n)
    if a.kind == "lower":
        n = sh[-1]
        return np.tril(rng.normal(size=sh)) + 2 * np.eye(n)
    v = rng.normal(size=sh) * scale
    return float(v) if sh == () else v


def flatten_rel(r):
    out = []
    for k, e in r.items():
        if isinstance(e, Law):
            continue
        if isinstance(e, Distinct):
            def words(keys):
                ks = jnp.concatenate([jnp.asarray(q).reshape(-1, 2) for q in keys]).astype(jnp.int64)
                return ks[:, 0] * (1 << 31) * 2 + ks[:, 1] - (1 << 62)
            v = jnp.sort(words(e.keys))
            same = jnp.sum((v[1:] == v[:-1]).astype(f64))
            if e.apart:
                u = words(e.apart)
                at = jnp.clip(jnp.searchsorted(v, u), 0, v.shape[0] - 1)
                same = same + jnp.sum((v[at] == u).astype(f64))
            out.append((k, same, jnp.zeros(()), 0))
            continue
        ls, _ = jax.tree_util.tree_flatten(e.lhs)
        rs, _ = jax.tree_util.tree_flatten(e.rhs)
        if len(ls) != len(rs):
            out.append((k, None, None, e.tol))
            continue
        for q, (x, y) in enumerate(zip(ls, rs)):
            out.append((f"{k}.{q}" if len(ls) > 1 else k, x, y, e.tol))
    return out


def close(x, y, tol):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False, f"shape {x.shape} vs contract {y.shape}"
    if x.size == 0:
        return True, ""
    x, y = x.astype(float), y.astype(float)
    if not np.all(np.isfinite(y)):
        return True, "contract side not finite"
    if not np.all(np.isfinite(x)):
        return False, "code result not finite"
    sc = 1.0 + np.max(np.abs(x)) + np.max(np.abs(y))
    e = np.max(np.abs(x - y))
    return bool(e <= tol * sc), f"max deviation {e:.3g} (scale {sc:.3g})"


class Numeric:
    def __init__(self, c, mods, seed):
        self.c, self.mods = c, mods
        self.seed = seed
        self.evals = 0

    def inputs(self, ds, k, around=()):
        """The k-th random input; with `around`, scalars and array entries near those magnitudes."""
        c = self.c
        rng = np.random.default_rng([self.seed, k, zlib.crc32(c.name.encode()) & 0xffff] +
                                    [int(v) for v in ds.values() if isinstance(v, int)])
        scale = c.scales[k % len(c.scales)]
        vals = {a.name: gen_arg(a, ds, rng, scale) for a in c.args}
        if k >= 9000:
            # arguments of very different sizes
            for a in c.args:
                if a.gen is None and a.kind in ("real", "psd", "pd"):
                    vals[a.name] = vals[a.name] * float(np.exp(rng.uniform(-4, 3)))
        if k % 4 == 3 or k >= 9000 and k % 2:
            # eigenvalues of very different sizes
            for a in c.args:
                if a.gen is None and a.kind in ("psd", "pd") and np.ndim(vals[a.name]) >= 2:
                    w, V = np.linalg.eigh(vals[a.name])
                    e = np.exp(rng.uniform(-10, 2, size=w.shape)) * (w > 1e-12 * np.max(np.abs(w), initial=0.0))
                    vals[a.name] = np.einsum("...ij,...j,...kj->...ik", V, e, V)
        if around:
            for a in c.args:
                if a.gen is None and a.kind in ("pos", "real") and rng.uniform() < 0.7:
                    m = abs(around[int(rng.integers(len(around)))]) * np.exp(rng.uniform(-2, 2))
                    v = vals[a.name]
                    vals[a.name] = float(np.sign(v) * m) if isinstance(v, float) else v / (np.mean(np.abs(v)) + 1e-300) * m
        return make_params(c, ds, rng, 1.0), vals

    def build(self, ds, params):
        c = self.c
        D = NS(**ds)
        U = NS(**{k: PFn(params[k], shape_eval(v, ds)) for k, v in c.ufs.items() if not callable(v)})
        for k, v in c.ufs.items():
            if callable(v):
                setattr(U, k, v(U, D))
        return U, D

    def eq_direct(self, ds, params, vals):
        """Run the real code directly on concrete values; list of failures."""
        c = self.c
        U, D = self.build(ds, params)
        given = {k: copy_val(v) for k, v in vals.items()}
        try:
            out = c.code(U, D, **given)
        except (jax.errors.JAXTypeError, AttributeError, TypeError):
            # plain numpy arrays where the code asks for jax arrays (x.at[...], indexing with a traced number)
            given = {k: (jnp.asarray(v) if isinstance(v, np.ndarray) else v) for k, v in vals.items()}
            out = c.code(U, D, **given)
        r = c.rel(U, D, {k: (jnp.asarray(v) if not isinstance(v, float) else v) for k, v in vals.items()}, out)
        self.evals += 1
        fails = []
        for k, v in vals.items():
            if isinstance(v, np.ndarray) and isinstance(given[k], np.ndarray) and not np.array_equal(v, given[k]):
                fails.append((f"frame: argument {k} unchanged", "the call changed its argument", given[k], v))
        for k, x, y, tol in flatten_rel(r):
            if x is None:
                fails.append((k, "structure mismatch", None, None))
                continue
            ok, msg = close(x, y, tol)
            if not ok and not self.rounding_noise(ds, params, vals, k, x, y, tol):
                fails.append((k, msg, np.asarray(x), np.asarray(y)))
        return fails, r

    def perturbed(self, params, vals, rng, eps=1e-13):
        """The same input up to relative changes of the order of eps."""
        def noise(v):
            return v * (1 + eps * rng.uniform(-1, 1, size=np.shape(v)))
        out = {}
        for a in self.c.args:
            v = vals[a.name]
            if a.kind in ("psd", "pd"):
                w = np.asarray(v)
                G = np.eye(w.shape[-1]) + eps * rng.uniform(-1, 1, size=w.shape)
                out[a.name] = G @ w @ np.swapaxes(G, -1, -2)
            elif a.kind in ("key", "int"):
                out[a.name] = v
            elif isinstance(v, float):
                out[a.name] = float(noise(v))
            else:
                w = np.asarray(v)
                out[a.name] = noise(w) if w.dtype.kind == "f" else v
        return {k: tuple(noise(np.asarray(q)) for q in p) for k, p in params.items()}, out

    def rounding_noise(self, ds, params, vals, name, x, y, tol, n=4):
        """A deviation that changes of the input far below the tolerance produce as well: the computation is
        ill-conditioned at this input and says nothing about the contract."""
        if not tol or np.shape(x) != np.shape(y):
            return False
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        bad = not np.all(np.isfinite(x))
        rng = np.random.default_rng(7)
        same = 0
        move = 0.0
        runs, moved = [], []
        for _ in range(n):
            p, v = self.perturbed(params, vals, rng)
            try:
                U, D = self.build(ds, p)
                out = self.c.code(U, D, **{k: copy_val(w) for k, w in v.items()})
                r = self.c.rel(U, D, {k: (jnp.asarray(w) if not isinstance(w, float) else w) for k, w in v.items()}, out)
                got = {k: (np.asarray(a, dtype=float), np.asarray(b, dtype=float)) for k, a, b, _ in flatten_rel(r)
                       if a is not None}
            except Exception:
                return False
            if name not in got or got[name][0].shape != x.shape:
                return False
            x1, y1 = got[name]
            if bad or not np.all(np.isfinite(x1)):
                same += bad == (not np.all(np.isfinite(x1)))
                moved.append(y1)
            else:
                runs.append((x1, y1))
                if not close(x1, y1, tol)[0]:
                    move = max(move, np.max(np.abs(x1 - x)), np.max(np.abs(y1 - y)))
        if bad:
            # the code overflowed: no deviation where the contract's value has blown up or moves itself
            return same < n or np.max(np.abs(y), initial=0) > 1e8 or any(not close(y1, y, tol)[0] for y1 in moved)
        # between the perturbed inputs: apart from what happens at this very input only
        for q in range(2):
            for a in runs:
                move = max(move, np.max(np.abs(a[q] - runs[0][q])))
        return bool(np.max(np.abs(x - y)) <= 100 * move)

    def eq_jit(self, ds):
        c = self.c
        tols = {}

        def f(params, vals):
            U, D = self.build(ds, params)
            out = c.code(U, D, **vals)
            r = c.rel(U, D, vals, out)
            fl = flatten_rel(r)
            for k, x, y, tol in fl:
                if x is None:
                    raise Unsupported("structure")
                tols[k] = tol
            return {k: (x, y) for k, x, y, _ in fl}
        return jax.jit(f), tols

    def law(self, ds, params, vals):
        """Exact conditional-law check of Law items by the tape method."""
        c = self.c
        U, D = self.build(ds, params)
        names = list(vals)
        meta = {}

        def f(*xs):
            v = dict(zip(names, xs))
            out = c.code(U, D, **v)
            r = c.rel(U, D, v, out)
            flat = []
            for k, e in r.items():
                if isinstance(e, Law):
                    meta[k] = e
                    flat += [jnp.asarray(e.lhs), jnp.asarray(e.mean), jnp.asarray(e.cov)]
            return flat
        xs = [jnp.asarray(v) for v in vals.values()]
        closed = jax.make_jaxpr(f)(*xs)

        def ev(z, at=None):
            t = numeric.Tape(z)
            o = numeric.run(closed, xs if at is None else at, t)
            self.evals += 1
            return [np.asarray(q, dtype=float) for q in o], t
        base, tape = ev(None)
        keys = list(tape.order)
        coords = [(k, i) for k in keys for i in np.ndindex(*tape.z[k].shape)]
        if len(coords) > 400:
            raise Unsupported("too many draws")
        z0 = {k: v.copy() for k, v in tape.z.items()}
        pert = []
        for k, i in coords:
            z = {q: v.copy() for q, v in z0.items()}
            z[k][i] += 1.0
            pert.append(ev(z)[0])
        fails = []

        def noise(pick, x, y, tol, n=4):
            """Changes of the input far below the tolerance move the two sides as much: ill-conditioned here."""
            rng = np.random.default_rng(7)
            move, runs = 0.0, []
            for _ in range(n):
                _, v = self.perturbed(params, vals, rng)
                x1, y1 = pick([jnp.asarray(w) for w in v.values()])
                if x1.shape != x.shape or not (np.all(np.isfinite(x1)) and np.all(np.isfinite(y1))):
                    return False
                runs.append((x1, y1))
                if not close(x1, y1, tol)[0]:
                    move = max(move, np.max(np.abs(x1 - x)), np.max(np.abs(y1 - y)))
            # between the perturbed inputs: apart from what happens at this very input only
            for q in range(2):
                for a in runs:
                    move = max(move, np.max(np.abs(a[q] - runs[0][q])))
            return bool(np.max(np.abs(x - y)) <= 100 * move)
        for q, (name, e) in enumerate(meta.items()):
            L, M, C = base[3 * q:3 * q + 3]
            b = e.batch
            for p in np.ndindex(*L.shape[:b]):
                fresh, past = [], []
                sc = 1 + np.max(np.abs(L[p])) + np.max(np.abs(M[p]))
                eps = 1e-9 * sc
                for n, o in enumerate(pert):
                    l, m, cc = o[3 * q:3 * q + 3]
                    ch = np.max(np.abs(m[p] - M[p])) > eps or np.max(np.abs(cc[p] - C[p])) > eps
                    if b and not ch:
                        for pp in np.ndindex(*L.shape[:b]):
                            if pp < p and np.max(np.abs(l[pp] - L[pp])) > eps:
                                ch = True
                    if np.max(np.abs(l[p] - L[p])) > eps:
                        (past if ch else fresh).append(n)
                n = L[p].size
                B = np.zeros((n, len(fresh)))
                zf = {k: v.copy() for k, v in z0.items()}
                shift = np.zeros(n)
                for col, nn in enumerate(fresh):
                    k, i = coords[nn]
                    dl = (pert[nn][3 * q][p] - L[p]).ravel()
                    B[:, col] = dl
                    shift += dl * z0[k][i]
                    zf[k][i] = 0.0
                l0 = ev(zf)[0]
                mu = l0[3 * q][p].ravel()
                if np.max(np.abs(mu - (L[p].ravel() - shift))) > 1e-6 * sc * (1 + len(fresh)):
                    fails.append((name, f"not affine in the fresh draws at {p}", mu, L[p].ravel() - shift))
                    continue
                far = {k: v.copy() for k, v in z0.items()}
                for nn in fresh:
                    k, i = coords[nn]
                    far[k][i] *= 12.0
                lf = ev(far)[0][3 * q][p].ravel()
                if not np.max(np.abs(lf - (L[p].ravel() + 11 * shift))) <= 1e-5 * sc * (1 + len(fresh)):
                    fails.append((name, f"not affine in large fresh draws at {p}", lf, L[p].ravel() + 11 * shift))
                    continue
                def at_mean(xs1):
                    o = ev(zf, xs1)[0]
                    return o[3 * q][p].ravel(), o[3 * q + 1][p].ravel()

                def at_cov(xs1):
                    o = ev(z0, xs1)[0]
                    B1 = np.zeros((n, len(fresh)))
                    for col, nn in enumerate(fresh):
                        k, i = coords[nn]
                        z = {w: v.copy() for w, v in z0.items()}
                        z[k][i] += 1.0
                        B1[:, col] = (ev(z, xs1)[0][3 * q][p] - o[3 * q][p]).ravel()
                    return B1 @ B1.T, o[3 * q + 2][p]
                ok, msg = close(mu, M[p].ravel(), e.tol)
                if not ok and noise(at_mean, mu, M[p].ravel(), e.tol):
                    continue
                if not ok:
                    fails.append((name, f"conditional mean at {p}: {msg}", mu, M[p].ravel()))
                    continue
                ok, msg = close(B @ B.T, C[p], e.tol * 10)
                if not ok and not noise(at_cov, B @ B.T, C[p], e.tol * 10):
                    fails.append((name, f"conditional covariance at {p}: {msg}", B @ B.T, C[p]))
        return fails, len(meta)


def copy_val(v):
    return v if isinstance(v, float) else np.array(v, copy=True) if isinstance(v, np.ndarray) else v


def to_jax_vals(vals):
    return {k: (v if isinstance(v, float) else jnp.asarray(v)) for k, v in vals.items()}
