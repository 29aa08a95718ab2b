"""
Symbolic execution of jaxprs on lazily indexed exact terms.

The jaxpr is what JAX obtained by tracing the real Python function: nothing is rewritten by hand.
External numerical kernels (random draws, cholesky, sqrtm, expm, linear solves) are replaced by
their contracts (see CONTRACTS); everything else is executed primitive by primitive.
"""
import itertools
from fractions import Fraction
import numpy as np
import jax
from jax import core
from .terms import *
from .terms import _fresh
from .arr import *
from . import terms as TT

UNROLL = 8
CONTRACTS_USED = set()
SCANS = {}


def dim_of(x):
    """jax dimension (int or symbolic) -> Lin."""
    if isinstance(x, (int, np.integer)):
        return Lin.of(int(x))
    try:
        mons = list(x.monomials())
    except Exception as e:
        raise Unsupported(f"dimension {x!r}") from e
    out = Lin()
    for m, c in mons:
        items = list(m.items()) if hasattr(m, "items") else []
        if not items:
            out = out + int(c)
            continue
        if len(items) == 1 and items[0][1] == 1 and items[0][0].var is not None:
            out = out + TT.dim(items[0][0].var) * int(c)
        else:
            if all(a.var is not None for a, e in items):
                out = out + TT.dim("*".join(sorted(a.var for a, e in items for _ in range(int(e))))) * int(c)
            else:
                out = out + TT.dim(repr(m)) * int(c)
    return out


def dim_term(x):
    """A dimension expression as a number: polynomial in the size symbols."""
    if isinstance(x, (int, np.integer)):
        return T.const(int(x))
    out = ZERO
    for m, c in x.monomials():
        t = T.const(int(c))
        for a, e in m.items():
            t = t * power(lin2t(TT.dim(a.var) if a.var is not None else TT.dim(repr(m))), F(e))
        out = out + t
    return out


def shp(aval):
    return tuple(dim_of(s) for s in aval.shape)


def same(a, b):
    return a == b


class Env:
    pass


def eval_closed(cj, args, name=""):
    return eval_jaxpr(cj.jaxpr, [from_const(c) for c in cj.consts], args)


def from_const(c):
    if isinstance(c, Arr):
        return c
    try:
        if jax.dtypes.issubdtype(c.dtype, jax.dtypes.prng_key):
            data = np.asarray(jax.random.key_data(c))
            a = from_np(data)
            return wrap_keys(a)
    except AttributeError:
        pass
    return from_np(np.asarray(c))


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, core.Literal):
            return from_const(np.asarray(v.val, dtype=v.aval.dtype) if not hasattr(v.val, "dtype") else v.val)
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    if len(jaxpr.invars) != len(args):
        raise Unsupported("arity")
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        rule = RULES.get(eqn.primitive.name)
        if rule is None:
            raise Unsupported(f"primitive {eqn.primitive.name}")
        outs = rule(eqn, *ins)
        if not isinstance(outs, (list, tuple)):
            outs = [outs]
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


def oshape(eqn, k=0):
    return shp(eqn.outvars[k].aval)


def elementwise(fn):
    def r(eqn, *ins):
        sh = oshape(eqn)
        return Arr(sh, lambda *i: fn(eqn, *[a(*i) if a.ndim else a() for a in ins]))
    return r


def is_int(v):
    return v.aval.dtype.kind in "iub"


def is_bool(v):
    return v.aval.dtype == np.dtype(bool)


def ew(name, fn):
    RULES[name] = elementwise(lambda eqn, *ts: fn(*ts))


ew("add", lambda a, b: a + b)
ew("add_any", lambda a, b: a + b)
ew("sub", lambda a, b: a - b)
ew("mul", lambda a, b: a * b)
ew("neg", lambda a: -a)
ew("copy", lambda a: a)
ew("copy_p", lambda a: a)
ew("stop_gradient", lambda a: a)
ew("real", lambda a: a)
ew("conj", lambda a: a)
ew("sqrt", lambda a: power(a, F(1, 2)))
ew("rsqrt", lambda a: power(a, F(-1, 2)))
ew("exp", t_exp)
ew("square", lambda a: a * a)


@rule("div")
def _div(eqn, a, b):
    sh = oshape(eqn)
    if is_int(eqn.outvars[0]):
        def f(*i):
            x, y = a(*i), b(*i)
            if x.is_const() and y.is_const():
                p, q = int(x.const_value()), int(y.const_value())
                return T.const(abs(p) // abs(q) * (1 if (p >= 0) == (q >= 0) else -1))
            if y.is_const():
                l = t2lin(x)
                if lmin(l) is None or lmin(l) < 0:
                    raise Unsupported("integer division of possibly negative")
                return lin2t(idivmod(l, int(y.const_value()))[0])
            raise Unsupported("integer division")
        return Arr(sh, f)
    return Arr(sh, lambda *i: a(*i) * power(b(*i), F(-1)))


@rule("rem")
def _rem(eqn, a, b):
    if not is_int(eqn.outvars[0]):
        raise Unsupported("float rem")

    def f(*i):
        x, y = a(*i), b(*i)
        if x.is_const() and y.is_const():
            p, q = int(x.const_value()), int(y.const_value())
            r = abs(p) % abs(q)
            return T.const(r if p >= 0 else -r)
        if y.is_const():
            l = t2lin(x)
            if lmin(l) is None or lmin(l) < 0:
                raise Unsupported("rem of possibly negative")
            return lin2t(idivmod(l, int(y.const_value()))[1])
        raise Unsupported("rem")
    return Arr(oshape(eqn), f)


@rule("integer_pow")
def _ipow(eqn, a):
    y = eqn.params["y"]
    return Arr(oshape(eqn), lambda *i: power(a(*i), F(y)))


@rule("pow")
def _pow(eqn, a, b):
    def f(*i):
        y = b(*i)
        if not y.is_const():
            return power_lin(a(*i), y)
        return power(a(*i), y.const_value())
    return Arr(oshape(eqn), f)


def power_lin(x, y):
    """x^y for an integer affine exponent: x^(k + sum a_v v) = x^k prod_v (x^v)^a_v."""
    r = iv_split(y, lambda z: power_lin(x, z))
    if r is not None:
        return r
    y = t2lin(y)
    if not t_positive(x) and not all(a > 0 for _, a in y.c):
        raise Unsupported("symbolic exponent of a base of unknown sign")
    out = power(x, F(y.k)) if y.k else UNIT
    for v, a in y.c:
        out = out * power(xpow(x, v), F(a))
    return out


def xpow(x, v):
    return REBUILD["fn"]((("X", "pow"), (x, lin2t(Lin.of(v))), ()))


@rule("jxv_factorial")
def _fact(eqn, a):
    return Arr(oshape(eqn), lambda *i: factorial_term(a(*i)))


def iv_split(y, f):
    """f(y) by cases on the Iverson brackets of y."""
    ats = sorted({a for bv, fs in y.m for a, _ in fs if a.kind == "iv"}, key=lambda a: a.id)
    if not ats or len(ats) > 4 or any(bv for bv, _ in y.m):
        return None
    a = ats[0]
    at = T._of_atom(a)
    return at * f(TT._set_atom(y, a, UNIT)) + (UNIT - at) * f(TT._set_atom(y, a, ZERO))


def factorial_term(y):
    r = iv_split(y, factorial_term)
    if r is not None:
        return r
    return REBUILD["fn"]((("X", "fact"), (y,), ()))


def unfn(name):
    def fn(a):
        if not a.m and name in ("sin", "tan", "tanh", "sinh", "log1p", "expm1", "erf", "erf_inv", "atan", "asin"):
            return ZERO
        if not a.m and name in ("cos", "cosh"):
            return UNIT
        return fn_atom((("R", name), (a,), ()))
    return fn


for _n in ("sin", "cos", "tan", "tanh", "sinh", "cosh", "log", "log1p", "erf", "erf_inv", "logistic", "atan", "asin",
           "acos", "cbrt"):
    ew(_n, unfn(_n))
ew("expm1", lambda a: t_exp(a) - 1)


def t_sign(a):
    ge = t_cmp("ge", a)
    gt = UNIT - t_cmp("ge", -a)
    return ge + gt - 1


def t_abs(a):
    if t_positive(a):
        return a
    ge = t_cmp("ge", a)
    return ge * a - (UNIT - ge) * a


ew("sign", t_sign)
ew("abs", t_abs)


def t_max(a, b):
    ge = t_cmp("ge", a - b)
    return ge * a + (UNIT - ge) * b


ew("max", t_max)
ew("min", lambda a, b: -t_max(-a, -b))
ew("ge", lambda a, b: t_cmp("ge", a - b))
ew("le", lambda a, b: t_cmp("ge", b - a))
ew("ne", lambda a, b: UNIT - t_cmp("eq", a - b))


def t_gt(a, b):
    # a > b  <=>  not (b >= a); integers: a - b - 1 >= 0
    return UNIT - t_cmp("ge", b - a)


ew("gt", t_gt)
ew("lt", lambda a, b: t_gt(b, a))
ew("eq", lambda a, b: t_cmp("eq", a - b))
ew("is_finite", lambda a: UNIT)


def _int_cmp_guard(name, fn):
    base = RULES[name]

    def r(eqn, a, b):
        if is_int(eqn.invars[0]) and not is_bool(eqn.invars[0]):
            def f(*i):
                return fn(t2lin(a(*i)) - t2lin(b(*i)))
            return Arr(oshape(eqn), f)
        return base(eqn, a, b)
    RULES[name] = r


_int_cmp_guard("ge", lambda l: iv_ge(l))
_int_cmp_guard("le", lambda l: iv_ge(-l))
_int_cmp_guard("gt", lambda l: iv_ge(l - 1))
_int_cmp_guard("lt", lambda l: iv_ge(-l - 1))
_int_cmp_guard("eq", lambda l: iv_eq(l))
_int_cmp_guard("ne", lambda l: UNIT - iv_eq(l))


def boolop(name, fn):
    def r(eqn, *ins):
        if not is_bool(eqn.invars[0]):
            raise Unsupported(f"bitwise {name}")
        return Arr(oshape(eqn), lambda *i: fn(*[a(*i) for a in ins]))
    RULES[name] = r


boolop("and", lambda a, b: a * b)
boolop("or", lambda a, b: a + b - a * b)
boolop("not", lambda a: UNIT - a)
boolop("xor", lambda a, b: a + b - 2 * (a * b))


@rule("select_n")
def _select(eqn, c, *cases):
    if is_bool(eqn.invars[0]):
        if len(cases) != 2:
            raise Unsupported("select arity")

        def f(*i):
            p = c(*i) if c.ndim else c()
            if not p.m:
                return cases[0](*i)
            if p == UNIT:
                return cases[1](*i)
            a, b = cases[0](*i), cases[1](*i)
            if a == b:
                return a
            if not a.m:
                from .laws import strip_tri
                return strip_tri(p * b)
            return a + p * (b - a)
        return Arr(oshape(eqn), f)

    def g(*i):
        p = c(*i) if c.ndim else c()
        if p.is_const():
            return cases[int(p.const_value())](*i)
        l = t2lin(p)
        out = ZERO
        for q, cs in enumerate(cases):
            out = out + iv_eq(l - q) * cs(*i)
        return out
    return Arr(oshape(eqn), g)


@rule("clamp")
def _clamp(eqn, lo, x, hi):
    def f(*i):
        a = lo(*i) if lo.ndim else lo()
        b = hi(*i) if hi.ndim else hi()
        return -t_max(-t_max(a, x(*i)), -b)
    return Arr(oshape(eqn), f)


@rule("convert_element_type")
def _cvt(eqn, a):
    src, dst = eqn.invars[0].aval.dtype, eqn.outvars[0].aval.dtype
    if dst == np.dtype(bool) and src != np.dtype(bool):
        return Arr(a.shape, lambda *i: UNIT - t_cmp("eq", a(*i)))
    if dst.kind in "iu" and src.kind in "fc":
        def f(*i):
            t = a(*i)
            if t.is_const():
                return T.const(int(t.const_value()))
            return lin2t(t2lin(t))  # only if provably an integer expression
        return Arr(a.shape, f)
    return a


RULES["convert_element_type_p"] = _cvt


@rule("bitcast_convert_type", "reduce_precision")
def _bitcast(eqn, a):
    if eqn.primitive.name == "reduce_precision":
        return a
    raise Unsupported("bitcast")


@rule("broadcast_in_dim")
def _bcast(eqn, a, *dyn):
    sh = oshape(eqn)
    bd = eqn.params["broadcast_dimensions"]

    def f(*i):
        idx = []
        for k, d in enumerate(bd):
            idx.append(Lin() if a.shape[k] == Lin.of(1) and sh[d] != Lin.of(1) else i[d])
        return a(*idx)
    return Arr(sh, f)


@rule("squeeze")
def _squeeze(eqn, a):
    dims = [d % a.ndim for d in eqn.params["dimensions"]]

    def f(*i):
        it = iter(i)
        return a(*[Lin() if k in dims else next(it) for k in range(a.ndim)])
    return Arr(oshape(eqn), f)


@rule("expand_dims")
def _expand(eqn, a):
    dims = eqn.params["dimensions"]
    return Arr(oshape(eqn), lambda *i: a(*[x for k, x in enumerate(i) if k not in dims]))


@rule("transpose")
def _transpose(eqn, a):
    p = eqn.params["permutation"]

    def f(*i):
        idx = [None] * len(p)
        for k, q in enumerate(p):
            idx[q] = i[k]
        return a(*idx)
    return Arr(oshape(eqn), f)


def reshape_map(din, dout):
    """Group axes of two jax shapes with equal products."""
    groups = []
    i = j = 0
    gi, gj = [], []
    pi = pj = 1
    n, m = len(din), len(dout)
    while i < n or j < m:
        if not gi and not gj:
            if i < n and j < m and _deq(din[i], dout[j]):
                groups.append(([i], [j]))
                i += 1
                j += 1
                continue
        if gi and gj and _deq(pi, pj):
            groups.append((gi, gj))
            gi, gj, pi, pj = [], [], 1, 1
            continue
        # extend the side that is behind
        if (i < n) and (not gi or j >= m or (gj and _div(pj, pi))):
            gi.append(i)
            pi = pi * din[i]
            i += 1
        elif j < m:
            gj.append(j)
            pj = pj * dout[j]
            j += 1
        elif i < n:
            gi.append(i)
            pi = pi * din[i]
            i += 1
    if gi or gj:
        groups.append((gi, gj))
    return groups


def _deq(a, b):
    return repr(a) == repr(b) or (isinstance(a, int) and isinstance(b, int) and a == b)


def _div(pj, pi):
    """is pi behind pj (needs extending on the input side)?"""
    if isinstance(pj, int) and isinstance(pi, int):
        return pi < pj
    a, b = dim_poly(pi), dim_poly(pj)
    # degree first
    da, db = sum(e for _, e in a[0]), sum(e for _, e in b[0])
    return (da, a[1]) < (db, b[1])


def dim_poly(x):
    if isinstance(x, (int, np.integer)):
        return ((), int(x))
    mons = list(x.monomials())
    m, c = mons[0]
    return (tuple((repr(k), v) for k, v in m.items()), int(c))


@rule("reshape")
def _reshape(eqn, a, *dyn):
    din = eqn.invars[0].aval.shape
    perm = eqn.params.get("dimensions")
    if perm is not None:
        src = a
        din = tuple(din[k] for k in perm)

        def tr(*i):
            j = [None] * len(i)
            for k, q in enumerate(perm):
                j[q] = i[k]
            return src(*j)
        a = Arr(tuple(src.shape[k] for k in perm), tr)
    return do_reshape(a, din, eqn.outvars[0].aval.shape)


def do_reshape(a, din, dout):
    groups = reshape_map(list(din), list(dout))
    lin_in = [dim_of(x) for x in din]
    lin_out = [dim_of(x) for x in dout]

    def f(*i):
        idx = [None] * len(lin_in)
        splits = []
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                idx[gi[0]] = i[gj[0]]
                continue
            ones_i = [q for q in gi if lin_in[q] != Lin.of(1)]
            ones_j = [q for q in gj if lin_out[q] != Lin.of(1)]
            for q in gi:
                if q not in ones_i:
                    idx[q] = Lin()
            if len(ones_i) == 1 and len(ones_j) == 1:
                idx[ones_i[0]] = i[ones_j[0]]
                continue
            if not ones_i:
                continue
            # linear position
            pos = Lin()
            for q in ones_j:
                pos = pos * lin_out[q] + i[q]
            for q in reversed(ones_i[1:]):
                s = lin_in[q]
                if s.is_const():
                    pos, r = idivmod(pos, s.k)
                else:
                    try:
                        pos, r = sdivmod(pos, s)
                    except Unsupported:
                        top = lin_in[ones_i[0]]
                        if len(ones_i) != 2 or not top.is_const() or top.k > 8:
                            raise
                        # a few rows of symbolic length: one case per row
                        splits.append((ones_i[0], q, pos, s, int(top.k)))
                        pos, r = Lin(), Lin()
                idx[q] = r
            idx[ones_i[0]] = pos
        def cases(todo, g):
            if not todo:
                return g * a(*idx)
            row, col, pos, s, n = todo[0]
            out = ZERO
            for k in range(n):
                # the entry at a place within the row, then at this one
                _fresh[0] += 1
                u = Var("t", f"row{_fresh[0]}", s)
                idx[row], idx[col] = Lin.of(k), Lin.of(u)
                h = UNIT
                if k > 0:
                    h = h * iv_ge(pos - s * k)
                if k < n - 1:
                    h = h * iv_ge(s * (k + 1) - pos - 1)
                if h.m:
                    out = out + g * h * cases(todo[1:], UNIT).subst({u: pos - s * k})
            return out
        return cases(splits, UNIT) if splits else a(*idx)
    return Arr(lin_out, f)


def sdivmod(n, s):
    """n div/mod a symbolic extent s."""
    r = TT.lin_divmod(n, s)
    if r is not None:
        lo, hi = lmin(r[1]), lmax(r[1] - s)
        if lo is not None and lo >= 0 and hi is not None and hi < 0:
            return r
    for q in range(0, 9):
        lo = lmin(n - s * q)
        hi = lmax(n - s * (q + 1))
        if lo is not None and lo >= 0 and hi is not None and hi < 0:
            return Lin.of(q), n - s * q
    raise Unsupported("div/mod by a symbolic extent")


@rule("concatenate")
def _concat(eqn, *ins):
    ax = eqn.params["dimension"]
    return concat(ins, ax, oshape(eqn))


def concat(ins, ax, sh=None):
    if sh is None:
        tot = Lin()
        for a in ins:
            tot = tot + a.shape[ax]
        sh = tuple(tot if k == ax else s for k, s in enumerate(ins[0].shape))
    offs = [Lin()]
    for a in ins:
        offs.append(offs[-1] + a.shape[ax])

    def f(*i):
        x = i[ax]
        out = ZERO
        for k, a in enumerate(ins):
            if a.shape[ax] == Lin():
                continue
            lo, hi = x - offs[k], offs[k + 1] - 1 - x
            if (lmax(lo) is not None and lmax(lo) < 0) or (lmax(hi) is not None and lmax(hi) < 0):
                continue
            g1 = iv_ge(lo) if k > 0 else UNIT
            g2 = iv_ge(hi) if k < len(ins) - 1 else UNIT
            g = g1 * g2
            if not g.m:
                continue
            v = a(*[lo if q == ax else y for q, y in enumerate(i)])
            if g == UNIT:
                return v
            out = out + g * v
        return out
    return Arr(sh, f)


@rule("slice")
def _slice(eqn, a):
    st = [dim_of(x) for x in eqn.params["start_indices"]]
    sr = eqn.params["strides"] or [1] * a.ndim
    sr = [dim_of(x) for x in sr]
    return Arr(oshape(eqn), lambda *i: a(*[s + x * r for s, x, r in zip(st, i, sr)]))


@rule("rev")
def _rev(eqn, a):
    dims = eqn.params["dimensions"]
    return Arr(a.shape, lambda *i: a(*[a.shape[k] - 1 - x if k in dims else x for k, x in enumerate(i)]))


@rule("pad")
def _pad(eqn, a, v):
    cfg = [tuple(dim_of(q) for q in c) for c in eqn.params["padding_config"]]
    if any(not c[2].is_const() or c[2].k != 0 for c in cfg):
        raise Unsupported("interior padding")

    def f(*i):
        g = UNIT
        idx = []
        for x, c, s in zip(i, cfg, a.shape):
            y = x - c[0]
            g = g * iv_ge(y) * iv_ge(s - 1 - y)
            idx.append(y)
        if not g.m:
            return v()
        t = a(*idx)
        if g == UNIT:
            return t
        return g * t + (UNIT - g) * v()
    return Arr(oshape(eqn), f)


@rule("iota")
def _iota(eqn, *dyn):
    d = eqn.params["dimension"]
    return Arr(oshape(eqn), lambda *i: lin2t(i[d]))


@rule("dim_as_value")
def _dav(eqn):
    return scalar(dim_term(eqn.params["dim"]))


def dims_product(shapes):
    out = [()]
    return out


def sum_over(exts, f):
    """Nested sums; f takes a tuple of Lin."""
    if not exts:
        return f(())
    return esum(exts[0], lambda q: sum_over(exts[1:], lambda r: f((q,) + r)))


@rule("dot_general")
def _dot(eqn, a, b):
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    fa = [k for k in range(a.ndim) if k not in ca and k not in ba]
    fb = [k for k in range(b.ndim) if k not in cb and k not in bb]

    def f(*i):
        nb = len(ba)
        ib, ia, jb = i[:nb], i[nb:nb + len(fa)], i[nb + len(fa):]

        def g(cs):
            x = [None] * a.ndim
            y = [None] * b.ndim
            for k, v in zip(ba, ib):
                x[k] = v
            for k, v in zip(bb, ib):
                y[k] = v
            for k, v in zip(fa, ia):
                x[k] = v
            for k, v in zip(fb, jb):
                y[k] = v
            for k, v in zip(ca, cs):
                x[k] = v
            for k, v in zip(cb, cs):
                y[k] = v
            p = a(*x)
            if not p.m:
                return ZERO
            return p * b(*y)
        return sum_over([a.shape[k] for k in ca], g)
    return Arr(oshape(eqn), f)


@rule("reduce_sum")
def _rsum(eqn, a):
    axes = eqn.params["axes"]

    def f(*i):
        def g(cs):
            it, ic = iter(i), iter(cs)
            return a(*[next(ic) if k in axes else next(it) for k in range(a.ndim)])
        return sum_over([a.shape[k] for k in sorted(axes)], g)
    return Arr(oshape(eqn), f)


def reduce_rule(name, fn):
    def r(eqn, a):
        axes = sorted(eqn.params["axes"])
        n = [a.shape[k].const() for k in axes]

        def f(*i):
            vals = []
            for cs in np.ndindex(*n):
                it, ic = iter(i), iter(cs)
                vals.append(a(*[Lin.of(next(ic)) if k in axes else next(it) for k in range(a.ndim)]))
            out = vals[0]
            for v in vals[1:]:
                out = fn(out, v)
            return out
        return Arr(oshape(eqn), f)
    RULES[name] = r


reduce_rule("reduce_prod", lambda a, b: a * b)
reduce_rule("reduce_max", t_max)
reduce_rule("reduce_min", lambda a, b: -t_max(-a, -b))
reduce_rule("reduce_and", lambda a, b: a * b)
reduce_rule("reduce_or", lambda a, b: a + b - a * b)


@rule("cumsum")
def _cumsum(eqn, a):
    ax = eqn.params["axis"]
    rv = eqn.params["reverse"]

    def f(*i):
        x = i[ax]

        def g(q):
            v = a(*[q if k == ax else y for k, y in enumerate(i)])
            return v * (iv_ge(q - x) if rv else iv_ge(x - q))
        return esum(a.shape[ax], g)
    return Arr(a.shape, f)


# --------------------------------------------------------------------------- gather / scatter


def _mode_name(m):
    return str(m).split(".")[-1]


@rule("gather")
def _gather(eqn, a, ind):
    dn = eqn.params["dimension_numbers"]
    ss = [dim_of(x) for x in eqn.params["slice_sizes"]]
    mode = str(eqn.params["mode"])
    off, coll, sim = dn.offset_dims, dn.collapsed_slice_dims, dn.start_index_map
    sh = oshape(eqn)
    fill = eqn.params.get("fill_value")

    def f(*i):
        bidx = [x for k, x in enumerate(i) if k not in off]
        oidx = [i[k] for k in off]
        start = [Lin()] * a.ndim
        guard = UNIT
        for q, d in enumerate(sim):
            t = ind(*bidx, Lin.of(q))
            l = t2lin(t) if not _is_iv_index(t) else None
            if l is None:
                return _gather_cases(t, q, d, i)
            lim = a.shape[d] - ss[d]
            lo, hi = lmin(l), lmax(l - lim)
            if not (lo is not None and lo >= 0 and hi is not None and hi <= 0):
                if "PROMISE" in mode:
                    pass
                elif "CLIP" in mode or "FILL" in mode:
                    # resolve out-of-range positions
                    if lmax(l) is not None and lmax(l) < 0:
                        if "CLIP" in mode:
                            l = Lin()
                        else:
                            return _fillv(eqn)
                    elif lmin(l - lim) is not None and lmin(l - lim) > 0:
                        if "CLIP" in mode:
                            l = lim
                        else:
                            return _fillv(eqn)
                    elif lo is not None and lo >= 0:
                        # may exceed at the upper end: case split
                        g = iv_ge(lim - l)
                        v_in = pick([*start[:d], l, *start[d + 1:]], oidx)
                        if "CLIP" in mode:
                            v_out = pick([*start[:d], lim, *start[d + 1:]], oidx)
                        else:
                            v_out = _fillv(eqn)
                        if len(sim) != 1:
                            raise Unsupported("multi-index out-of-range gather")
                        return g * v_in + (UNIT - g) * v_out
                    else:
                        raise Unsupported("gather index range undetermined")
                else:
                    raise Unsupported(f"gather mode {mode}")
            start[d] = l
        return pick(start, oidx)

    def pick(start, oidx):
        idx = []
        it = iter(oidx)
        for d in range(a.ndim):
            idx.append(start[d] + (Lin() if d in coll else next(it)))
        return a(*idx)

    def _gather_cases(t, q, d, i):
        # index of the form sum of bracketed integer choices over a small range
        n = a.shape[d]
        if len(sim) != 1 or not n.is_const() or n.k > 64 or ss[d] != Lin.of(1):
            raise Unsupported("data-dependent gather")
        oidx = [i[k] for k in off]
        out = ZERO
        for p in range(n.k):
            g = _iv_is(t, p)
            if g.m:
                out = out + g * pick([Lin.of(p) if k == d else Lin() for k in range(a.ndim)], oidx)
        return out

    return Arr(sh, f)


def _is_iv_index(t):
    return any(a.kind == "iv" for k in t.m for a, _ in k[1])


def _iv_is(t, p):
    """[t == p] for an integer-valued term built from Iverson brackets, by expanding the brackets."""
    ivs = sorted({a for k in t.m for a, _ in k[1] if a.kind == "iv"}, key=lambda a: a.id)
    if not ivs:
        return iv_eq(t2lin(t) - p)
    a = ivs[0]
    one = TT._set_atom(t, a, UNIT)
    zero = TT._set_atom(t, a, ZERO)
    at = T._of_atom(a)
    return at * _iv_is(one, p) + (UNIT - at) * _iv_is(zero, p)


def _fillv(eqn):
    fv = eqn.params.get("fill_value")
    if fv is not None:
        return np_term(fv)
    if eqn.outvars[0].aval.dtype.kind == "f":
        return atom("sym", "<nan>", ())
    raise Unsupported("integer fill gather")


@rule("dynamic_slice")
def _dslice(eqn, a, *st):
    st = st[:a.ndim]
    ss = [dim_of(x) for x in eqn.params["slice_sizes"]]

    def f(*i):
        idx = []
        for k in range(a.ndim):
            l = t2lin(st[k]())
            lim = a.shape[k] - ss[k]
            lo, hi = lmin(l), lmax(l - lim)
            if lo is None or lo < 0:
                if lmax(l) is not None and lmax(l) < 0:
                    l = Lin()
                else:
                    raise Unsupported("dynamic_slice start undetermined")
            elif hi is None or hi > 0:
                if lmin(l - lim) is not None and lmin(l - lim) > 0:
                    l = lim
                else:
                    raise Unsupported("dynamic_slice start undetermined")
            idx.append(l + i[k])
        return a(*idx)
    return Arr(oshape(eqn), f)


def _window(y, w):
    """[0 <= y < w]"""
    if w.is_const() and 1 <= w.k <= 8:
        return sum((iv_eq(y - j) for j in range(w.k)), ZERO)
    return iv_ge(y) * iv_ge(w - 1 - y)


@rule("dynamic_update_slice")
def _dus(eqn, a, u, *st):
    def f(*i):
        g = UNIT
        idx = []
        for k in range(a.ndim):
            l = t2lin(st[k]())
            lim = a.shape[k] - u.shape[k]
            lo, hi = lmin(l), lmax(l - lim)
            if lo is None or lo < 0 or hi is None or hi > 0:
                raise Unsupported("dynamic_update_slice start undetermined")
            y = i[k] - l
            g = g * _window(y, u.shape[k])
            idx.append(y)
        if not g.m:
            return a(*i)
        if g == UNIT:
            return u(*idx)
        return g * u(*idx) + (UNIT - g) * a(*i)
    return Arr(a.shape, f)


@rule("scatter", "scatter-add")
def _scatter(eqn, a, ind, upd):
    """Constant-index scatter: every update location is concrete or affine."""
    add = eqn.primitive.name == "scatter-add"
    dn = eqn.params["dimension_numbers"]
    uwd, iwd, sdo = dn.update_window_dims, dn.inserted_window_dims, dn.scatter_dims_to_operand_dims
    bshape = ind.shape[:-1]
    wdims = [d for d in range(a.ndim) if d not in iwd]
    sdims = [k for k in range(upd.ndim) if k not in uwd]
    single = all(s == Lin.of(1) for s in bshape)

    def loc(b):
        st = [Lin()] * a.ndim
        for q, d in enumerate(sdo):
            st[d] = t2lin(ind(*b, Lin.of(q)))
        return st

    # window size per operand dim
    def wsize(d):
        return upd.shape[uwd[wdims.index(d)]] if d in wdims else Lin.of(1)

    def value(b, i):
        st = loc(b)
        g = UNIT
        widx = []
        for d in range(a.ndim):
            y = i[d] - st[d]
            w = wsize(d)
            lim = a.shape[d] - w
            if lmin(st[d]) is None or lmin(st[d]) < 0 or lmax(st[d] - lim) is None or lmax(st[d] - lim) > 0:
                # out-of-bounds updates are dropped (FILL_OR_DROP) -- only when certain
                if (lmax(st[d]) is not None and lmax(st[d]) < 0) or \
                        (lmin(st[d] - lim) is not None and lmin(st[d] - lim) > 0):
                    return ZERO, None
                raise Unsupported("scatter index range undetermined")
            g = g * _window(y, w)
            if not g.m:
                return ZERO, None
            if d in wdims:
                widx.append(y)
        uidx = [None] * upd.ndim
        for k, v in zip(sdims, b):
            uidx[k] = v
        for k, v in zip(uwd, widx):
            uidx[k] = v
        return g, upd(*uidx)

    if not all(s.is_const() for s in bshape):
        # affine family of locations: strided set  a.at[::c].set(u), or scatter-add over a symbolic batch
        def fs(*i):
            b, exts = [], []
            for s in bshape:
                _fresh[0] += 1
                b.append(Lin.of(Var("t", _fresh[0], s)))
            st = loc(tuple(b))
            # solve st[d](b) == i[d] for each symbolic batch variable
            sol = {}
            cond = UNIT
            for d in range(a.ndim):
                vs = [v for v in st[d].vars() if any(v in x.vars() for x in b)]
                if not vs:
                    continue
                if len(vs) != 1:
                    raise Unsupported("scatter locations")
                v = vs[0]
                c = dict(st[d].c).get(v)
                if c is None or v in st[d].prods():
                    raise Unsupported("scatter locations")
                num = i[d] - (st[d] - Lin(((v, c),), 0))
                if c < 0:
                    raise Unsupported("scatter stride")
                # num = c * v
                if c == 1:
                    q, r = num, Lin()
                else:
                    q, r = idivmod(num, c)
                if not r.is_const():
                    raise Unsupported("scatter stride residue")
                if r.k != 0:
                    return a(*i)
                sol[v] = q
            if len(sol) != len(b):
                raise Unsupported("scatter locations")
            bb = tuple(sol[x.vars()[0]] for x in b)
            g, v = value_sub(bb, i)
            for q, s in zip(bb, bshape):
                g = g * iv_ge(q) * iv_ge(s - 1 - q)
            if not g.m:
                return a(*i)
            old = a(*i)
            if add:
                return old + g * v
            if g == UNIT:
                return v
            return g * v + (UNIT - g) * old

        def value_sub(bb, i):
            st = loc(bb)
            g = UNIT
            widx = []
            for d in range(a.ndim):
                y = i[d] - st[d]
                w = wsize(d)
                g = g * iv_ge(y) * iv_ge(w - 1 - y)
                if d in wdims:
                    widx.append(y)
            uidx = [None] * upd.ndim
            for k, v in zip(sdims, bb):
                uidx[k] = v
            for k, v in zip(uwd, widx):
                uidx[k] = v
            return g, (upd(*uidx) if g.m else ZERO)
        return Arr(a.shape, fs)

    nb = [s.k for s in bshape]
    total = int(np.prod(nb)) if nb else 1
    if total > 4096:
        raise Unsupported("large scatter")

    def f(*i):
        out = a(*i)
        for b in np.ndindex(*nb):
            g, v = value(tuple(Lin.of(q) for q in b), i)
            if not g.m:
                continue
            if add:
                out = out + g * v
            elif g == UNIT:
                out = v
            else:
                out = g * v + (UNIT - g) * out
        return out
    return Arr(a.shape, f)


# ------------------------------------------------------------------------------------ control


@rule("custom_jvp_call", "custom_vjp_call", "closed_call", "core_call", "remat", "checkpoint", "xla_call",
      "custom_vjp_call_jaxpr")
def _call(eqn, *ins):
    p = eqn.params
    cj = p.get("call_jaxpr") or p.get("jaxpr") or p.get("fun_jaxpr")
    if hasattr(cj, "jaxpr"):
        return eval_closed(cj, list(ins))
    return eval_jaxpr(cj, [], list(ins))


NAMED = {}


@rule("pjit")
def _pjit(eqn, *ins):
    name = eqn.params["name"]
    h = NAMED.get(name)
    if h is not None:
        r = h(eqn, *ins)
        if r is not None:
            return r
    return eval_closed(eqn.params["jaxpr"], list(ins))


@rule("cond")
def _cond(eqn, p, *ins):
    branches = eqn.params["branches"]
    c = p()
    if c.is_const():
        k = int(c.const_value())
        k = max(0, min(k, len(branches) - 1))
        return eval_closed(branches[k], list(ins))
    outs = [eval_closed(b, list(ins)) for b in branches]
    isb = is_bool(eqn.invars[0])
    res = []
    for q in range(len(eqn.outvars)):
        def f(*i, q=q):
            vals = [o[q](*i) for o in outs]
            if all(v == vals[0] for v in vals):
                return vals[0]
            if len(vals) == 2 and (isb or _boolish(c)):
                return vals[0] + c * (vals[1] - vals[0])
            l = t2lin(c)
            out = ZERO
            for k, v in enumerate(vals):
                out = out + iv_eq(l - k) * v
            return out
        res.append(Arr(oshape(eqn, q), f))
    return res


def _boolish(c):
    """0/1-valued by construction: built from brackets with c*c == c."""
    return c * c == c


@rule("while")
def _while(eqn, *ins):
    p = eqn.params
    nc, nb = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, st = list(ins[:nc]), list(ins[nc:nc + nb]), list(ins[nc + nb:])
    st0 = st
    for it in range(70):
        c = eval_closed(p["cond_jaxpr"], cc + st)[0]()
        if not c.is_const():
            r = while_counted(eqn, cc, bc, st0)
            if r is not None:
                return r
            raise Unsupported("data-dependent while loop")
        if not c.m:
            return st
        st = [materialise(a) for a in eval_closed(p["body_jaxpr"], bc + st)]
    raise Unsupported("long while loop")


def while_counted(eqn, cc, bc, st):
    """while i < n: counted loop with a symbolic bound == a scan without xs."""
    p = eqn.params
    nb = len(bc)
    for s, a in enumerate(st):
        if a.ndim or not is_int_aval(eqn.outvars[s].aval):
            continue
        try:
            # condition must be exactly [carry_s < n] with carry_s the counter
            uid = f"w{_fresh[0]}"
            _fresh[0] += 1
            probe = list(st)
            pv = Lin.of(Var("ix", f"probe{uid}", None))
            probe[s] = scalar(lin2t(pv))
            c = eval_closed(p["cond_jaxpr"], cc + probe)[0]()
            init = t2lin(a())
            # find n: c == [n-1-pv >= 0]
            comp = UNIT - c
            cand = None
            for t, sg in ((c, 1), (comp, -1)):
                if len(t.m) == 1:
                    ((bv, fs), k), = t.m.items()
                    if not bv and len(fs) == 1 and fs[0][0].kind == "iv" and fs[0][0].data[0] == "ge" and k == 1:
                        l = fs[0][0].data[1]
                        l = l if sg == 1 else -l - 1
                        cf = dict(l.c).get(pv.vars()[0])
                        if cf == -1:
                            cand = l + pv + 1
            if cand is None:
                continue
            nxt = eval_closed(p["body_jaxpr"], bc + probe)
            if t2lin(nxt[s]()) != pv + 1:
                continue
            L = cand - init
            lo = lmin(L)
            if lo is None or lo < 0:
                continue

            def body(carry, k):
                return eval_closed(p["body_jaxpr"], bc + carry), []
            avals = [v.aval for v in eqn.outvars]
            carry, _ = run_scan(L, st, body, avals)
            return carry
        except Unsupported:
            continue
    return None


def is_int_aval(av):
    return av.dtype.kind in "iu"


def materialise(a):
    return a


class ScanInfo:
    """One symbolic-length loop: carries are atoms ('carry', uid, slot, k, idx)."""

    def __init__(self, uid, length, init, body, shapes):
        self.uid, self.length, self.init, self.body, self.shapes = uid, length, init, body, shapes
        self.acc = {}     # slot -> closed form of an accumulator, used at the end of the loop
        self.subst = {}   # slot -> ('inv') or closed form
        self.cache = {}

    def carry(self, k):
        out = []
        for s in range(len(self.init)):
            out.append(self.carry_slot(s, k))
        return out

    def carry_slot(self, s, k):
        if s in self.subst:
            return self.subst[s](k)
        k = Lin.of(k)
        if s in self.acc and k == self.length:
            return self.acc[s](k)
        if k == Lin():
            return self.init[s]
        return Arr(self.shapes[s], lambda *i: _rb_carry((self.uid, s, k, tuple(i))))

    def generic(self, s, k):
        return Arr(self.shapes[s], lambda *i: T._of_atom(Atom("carry", (self.uid, s, Lin.of(k), tuple(i)))))

    def step(self, k):
        """(carry(k+1), ys(k)) as computed by the body from carry(k)."""
        k = Lin.of(k)
        if k not in self.cache:
            self.cache[k] = self.body(self.carry(k), k)
        return self.cache[k]


def _rb_carry(data):
    uid, s, k, idx = data
    info = SCANS[uid]
    if k == Lin():
        return info.init[s](*idx)
    if s in info.subst:
        return info.subst[s](k)(*idx)
    if s in info.acc and k == info.length:
        return info.acc[s](k)(*idx)
    if (uid, s) in TT.SYMCARRY:
        data = (uid, s, k, TT._sort2(idx))
    return T._of_atom(Atom("carry", data))


REBUILD["carry"] = _rb_carry


def run_scan(length, init, body, avals):
    """body(carry, k) -> (carry', ys).  Returns (final carry, stacked ys)."""
    length = Lin.of(length)
    shapes = [shp(a) for a in avals]
    if length.is_const() and length.k <= UNROLL:
        st = list(init)
        yss = []
        for k in range(length.k):
            st, ys = body(st, Lin.of(k))
            yss.append(ys)
        ny = len(yss[0]) if yss else 0
        return st, [Arr((length,) + (yss[0][q].shape),
                        lambda i, *r, q=q: _pick_step(yss, q, i, r)) for q in range(ny)]
    _fresh[0] += 1
    uid = f"L{_fresh[0]}"
    info = ScanInfo(uid, length, list(init), body, shapes)
    SCANS[uid] = info
    k = ix(length, f"k{uid}")
    info.k = k
    # closed forms: invariant slots and counters
    changed = True
    while changed:
        changed = False
        info.cache = {}
        new, _ = info.step(k)
        for s in range(len(init)):
            if s in info.subst:
                continue
            try:
                inv = all(new[s](*i) == atom("carry", uid, s, k, tuple(i)) for i in all_indices(shapes[s]))
            except Unsupported:
                inv = False
            if inv:
                info.subst[s] = lambda kk, s=s: init[s]
                changed = True
                break
            if not shapes[s] and is_int_aval(avals[s]):
                try:
                    d = new[s]() - atom("carry", uid, s, k, ())
                    if d.is_const() and d.const_value().denominator == 1:
                        d = int(d.const_value())
                        i0 = init[s]()
                        info.subst[s] = lambda kk, i0=i0, d=d: scalar(i0 + lin2t(Lin.of(kk) * d))
                        changed = True
                        break
                except Unsupported:
                    pass
    find_symmetric(info, k)
    info.cache = {}
    new, ys = info.step(k)
    n0 = len(init)
    if follow_memory(info, new, k):
        avals = list(avals) + [avals[s] for s in info.memory]
        info.cache = {}
        new, ys = info.step(k)
    if solve_writes(info, new, k):
        info.cache = {}
        new, ys = info.step(k)
    solve_accumulators(info, new, k, avals)
    # fold: ys that equal the next carry are expressed as carry(k+1)
    fold = {}
    for q, y in enumerate(ys):
        for s in range(len(init)):
            if s in info.subst or y.shape != shapes[s]:
                continue
            try:
                if all(y(*i) == new[s](*i) for i in arr_indices(y)):
                    fold[q] = s
                    break
            except Unsupported:
                pass
    kv = k.vars()[0]
    outs = []
    for q, y in enumerate(ys):
        def f(kk, *i, q=q, y=y):
            if q in fold:
                return info.carry_slot(fold[q], kk + 1)(*i)
            return y(*i).subst({kv: kk})
        outs.append(Arr((length,) + y.shape, f))
    return info.carry(length)[:n0], outs


def _same_index(fs, xs, ys):
    """The brackets among the factors fs imply xs = ys."""
    given = T({((), tuple((a, 1) for a, _ in fs if a.kind == "iv")): F1})
    return all(x == y or is_zero(given * (UNIT - iv_eq(x - y))) for x, y in zip(xs, ys))


def follow_memory(info, new, k):
    """A loop whose body reads a buffer b at the moving position r(k): y(k) = b(k)[r(k)] becomes a carry of its own,
    with y(0) = b(0)[r(0)] and y(k+1) = b(k+1)[r(k+1)]."""
    uid, kv = info.uid, info.k.vars()[0]
    info.memory = []
    for s in range(len(info.init)):
        if s in info.subst or not info.shapes[s]:
            continue
        try:
            at = set()
            for i in all_indices(info.shapes[s]):
                for bv, fs in new[s](*i).m:
                    for a, _ in fs:
                        for b in T._of_atom(a).atoms():
                            if b.kind == "carry" and b.data[:3] == (uid, s, k) and kv in b.data[3][0].vars() \
                                    and not (a == b and _same_index(fs, b.data[3], i)):
                                at.add(b.data[3][0])
            if len(at) != 1:
                continue
            r = at.pop()
            if any(v.kind != "dim" and v != kv for v in r.vars()):
                continue
        except Unsupported:
            continue
        y = len(info.init)
        info.memory.append(s)
        info.init.append(Arr(info.shapes[s][1:], lambda *i, s=s, r=r: info.init[s](r.subst({kv: Lin()}), *i)))
        info.shapes.append(info.shapes[s][1:])

        def body(carry, kk, inner=info.body, s=s, y=y, r=r):
            kk = Lin.of(kk)
            b, v, here = carry[s], carry[y], r.subst({kv: kk})
            st = list(carry[:y])
            st[s] = Arr(b.shape, lambda *i: v(*i[1:]) if i[0] == here else b(*i))
            out, ys = inner(st, kk)
            after = r.subst({kv: kk + 1})
            return list(out) + [Arr(v.shape, lambda *i: out[s](after, *i))], ys
        info.body = body
    return bool(info.memory)


def find_symmetric(info, k):
    """Inductive invariant: matrix-valued carries that start symmetric and stay so."""
    def sym(a):
        cs = index_cases(a.shape[-1]), index_cases(a.shape[-2])
        for pre in all_indices(a.shape[:-2]):
            for i in cs[0]:
                for j in cs[1]:
                    if not is_zero(a(*pre, i, j) - a(*pre, j, i)):
                        return False
        return True
    cand = []
    for s, sh in enumerate(info.shapes):
        if s in info.subst or len(sh) < 2 or sh[-1] != sh[-2] or sh[-1] == Lin.of(1):
            continue
        try:
            if sym(info.init[s]):
                cand.append(s)
        except Unsupported:
            pass
    while cand:
        for s in cand:
            TT.SYMCARRY.add((info.uid, s))
        info.cache = {}
        bad = []
        try:
            new, _ = info.step(k)
        except Unsupported:
            new = None
        for s in cand:
            try:
                ok = new is not None and sym(new[s])
            except Unsupported:
                ok = False
            if not ok:
                bad.append(s)
        if not bad:
            return
        for s in cand:
            TT.SYMCARRY.discard((info.uid, s))
        cand = [s for s in cand if s not in bad]


def _at_index(g, i):
    """The value at index i of an array given by its entries at generic indices."""
    out = ZERO
    for key, t in g.items():
        sub, sel = {}, UNIT
        for q, x in zip(key, i):
            free = [v for v in q.vars() if v.kind != "dim"]
            if len(free) == 2 and len(q.c) == 2 and q.k == 0 and len(q.prods()) == 1 + sum(v.kind == "dim" for v in q.prods()):
                # q = u*w + v with v < w: quotient and remainder of x
                (p,), (v,) = [a for a, c in q.c if a.kind == "prod" and c == 1], [a for a, c in q.c if a.kind != "prod" and c == 1]
                u, w = p.name
                AB = lin_divmod(x, Lin.of(w))
                A, B = AB if AB is not None else (Lin(), x)
                lo, hi = lmin(B), lmax(B - Lin.of(w))
                if v.ext != Lin.of(w) or lo is None or lo < 0 or hi is None or hi >= 0:
                    raise Unsupported("generic index")
                sub[u], sub[v] = A, B
                sel = sel * iv_ge(A) * iv_ge(u.ext - 1 - A)
                continue
            if not free:
                sel = sel * iv_eq(x - q)
                continue
            if len(free) > 1 or q.prods():
                raise Unsupported("generic index")
            v = free[0]
            c = dict(q.c)[v]
            rest = q - Lin.of(v) * c
            if c == 1:
                y = x - rest
            elif c > 1 and rest.is_const() and 0 <= rest.k < c:
                y, r = idivmod(x, c)
                sel = sel * iv_eq(r - rest)
            else:
                raise Unsupported("generic index")
            sub[v] = y
            sel = sel * iv_ge(y) * iv_ge(v.ext - 1 - y)
        if sel != ZERO:
            out = out + sel * t.subst(sub)
    return out


def implied_out(t):
    """t without the inequality brackets that another bracket of the same monomial implies."""
    out = ZERO
    for (bv, fs), c in t.m.items():
        ges = [a for a, _ in fs if a.kind == "iv" and a.data[0] == "ge"]
        drop = set()
        for a in ges:
            for b in ges:
                if a is not b and b not in drop:
                    lo = lmin(a.data[1] - b.data[1])
                    if lo is not None and lo >= 0:
                        drop.add(a)
                        break
        out = out + T({(bv, tuple(f for f in fs if f[0] not in drop)): c})
    return out


def covers(shape):
    """Alternative generic covers of an index range: by position, and by quotient and remainder for products of sizes."""
    alts = []
    for e in shape:
        a = [index_cases(e)]
        if not e.is_const() and e.k == 0 and len(e.c) == 1 and e.c[0][1] > 0:
            v, c = e.c[0]
            names = dim_factors(v)
            if c == 1:
                for n in range(len(names)) if len(names) == 2 else ():
                    u, w = dim(names[n]), dim(names[1 - n])
                    a.append([lin_product(ix(u), w) + ix(w)])
            else:
                a.append([Lin.of(v) * r + ix(Lin.of(v)) for r in range(c)])
        alts.append(a)
    for pick in itertools.product(*alts):
        yield list(itertools.product(*pick))


def solve_writes(info, new, k):
    r = False
    for s in range(len(info.init)):
        if s in info.subst or not info.shapes[s]:
            continue
        for cover in covers(info.shapes[s]):
            if solve_write(info, new, k, s, cover):
                r = True
                break
    return r


def solve_write(info, new, k, s, cover):
    """carry(k+1) = (1 - sel(k)) carry(k) + val(k), where sel(k) is an indicator that pins k at every index (so that
    each entry is written at most once) and val(k) vanishes off it:
    carry(K) = (1 - Sum_{j<K} sel(j)) carry(0) + Sum_{j<K} val(j)."""
    uid, length, kv = info.uid, info.length, k.vars()[0]
    try:
        sels, vals = {}, {}
        ok = True
        for i in cover:
            stay = val = ZERO
            for (bv, fs), c in implied_out(new[s](*i)).m.items():
                own = [f for f in fs if f[0].kind == "carry" and f[0].data[:2] == (uid, s)]
                rest = T({(bv, tuple(f for f in fs if f not in own)): c})
                if not own:
                    val = val + rest
                    continue
                ok = ok and not bv and len(own) == 1 and own[0][1] == 1 and _same_index(
                    fs, (own[0][0].data[2], *own[0][0].data[3]), (k, *i))
                stay = stay + rest
            sel = UNIT - stay
            if not ok or any(a.kind == "carry" and a.data[0] == uid and a.data[1] == s for t in (sel, val) for a in t.atoms()):
                ok = False
                break
            if any(a.kind != "iv" for a in sel.atoms(False)):
                ok = False
                break
            pins = all(any(a.kind == "iv" and a.data[0] == "eq" and abs(dict(a.data[1].c).get(kv, 0)) == 1
                           for a, _ in fs) for _, fs in sel.m)
            if not pins or not is_zero(sel * sel - sel) or not is_zero(sel * val - val):
                ok = False
                break
            # two different iterations never write the same entry
            _fresh[0] += 1
            k2 = ix(length, f"k2{uid}{_fresh[0]}")
            both = sel * sel.subst({kv: k2})
            if not is_zero(both * (UNIT - iv_eq(k - k2))):
                ok = False
                break
            sels[i], vals[i] = sel, val
        if not ok or all(v == ZERO for v in sels.values()):
            return False
        # what is written is the next value of another carry
        for r in range(len(info.init)):
            if r == s or r in info.subst or info.shapes[r] != info.shapes[s][1:]:
                continue
            try:
                if all(is_zero(vals[i] - sels[i] * new[r](*i[1:])) for i in vals):
                    vals = {i: sels[i] * info.carry_slot(r, k + 1)(*i[1:]) for i in vals}
                    break
            except Unsupported:
                pass
    except Unsupported:
        return False

    def closed(kk, s=s, sels=sels, vals=vals):
        kk = Lin.of(kk)

        def f(*i):
            a, b = _at_index(sels, i), _at_index(vals, i)
            done = lambda t: big_sum(length, lambda j: iv_ge(kk - 1 - j) * t.subst({kv: j}))
            return info.init[s](*i) * (UNIT - done(a)) + done(b)
        return Arr(info.shapes[s], f)
    info.subst[s] = closed
    return True


def solve_accumulators(info, new, k, avals):
    """carry(k+1) = carry(k) + g(k), g free of unsolved carries: carry(K) = carry(0) + Sum_{j<K} g(j)."""
    uid, length, kv = info.uid, info.length, k.vars()[0]
    changed = True
    while changed:
        changed = False
        for s in range(len(info.init)):
            if s in info.subst or s in info.acc or is_int_aval(avals[s]):
                continue

            def rep(a):
                if a.kind == "carry" and a.data[0] == uid and a.data[1] in info.acc:
                    return info.acc[a.data[1]](a.data[2])(*a.data[3])
                return None
            rep.kinds = {"carry"}
            try:
                g = {i: new[s](*i) - atom("carry", uid, s, k, tuple(i)) for i in all_indices(info.shapes[s])}
                if any(a.kind == "carry" and a.data[0] == uid and a.data[1] not in info.acc
                       for t in g.values() for a in t.atoms()):
                    continue
                g = {i: t.replace(rep) for i, t in g.items()}
            except Unsupported:
                continue

            def closed(kk, s=s, g=g):
                kk = Lin.of(kk)

                def f(*i):
                    gi = _at_index(g, i)
                    return info.init[s](*i) + big_sum(length, lambda j: iv_ge(kk - 1 - j) * gi.subst({kv: j}))
                return Arr(info.shapes[s], f)
            info.acc[s] = closed
            changed = True


def expand_accumulators(t):
    """t with the accumulators of loops replaced by their closed forms, also inside the loop; None if there are none."""
    hit = []

    def rep(a):
        if a.kind == "carry":
            info = SCANS.get(a.data[0])
            if info is not None and a.data[1] in info.acc:
                hit.append(a)
                return info.acc[a.data[1]](a.data[2])(*a.data[3])
        return None
    rep.kinds = {"carry"}
    for _ in range(3):
        n = len(hit)
        try:
            t = t.replace(rep)
        except Unsupported:
            return None
        if len(hit) == n:
            break
    return t if hit else None


def _pick_step(yss, q, i, r):
    if i.is_const():
        if 0 <= i.k < len(yss):
            return yss[i.k][q](*r)
        return ZERO
    out = ZERO
    for k in range(len(yss)):
        out = out + iv_eq(i - k) * yss[k][q](*r)
    return out


@rule("scan")
def _scan_rule(eqn, *ins):
    p = eqn.params
    nc, ncar = p["num_consts"], p["num_carry"]
    consts, init, xs = list(ins[:nc]), list(ins[nc:nc + ncar]), list(ins[nc + ncar:])
    length = dim_of(p["length"])
    rev = p["reverse"]

    def body(carry, k):
        pos = (length - 1 - k) if rev else k
        x = [Arr(a.shape[1:], lambda *i, a=a: a(pos, *i)) for a in xs]
        outs = eval_closed(p["jaxpr"], consts + list(carry) + x)
        return outs[:ncar], outs[ncar:]

    avals = [v.aval for v in eqn.outvars[:ncar]]
    carry, ys = run_scan(length, init, body, avals)
    if rev:
        ys = [Arr(y.shape, lambda i, *r, y=y: y(length - 1 - i, *r)) for y in ys]
    return list(carry) + list(ys)


def unfold(t):
    """Unfold carry(k+1) one step through its loop body (top-level atoms with positive offset)."""
    def f(a):
        if a.kind == "carry":
            uid, s, k, idx = a.data
            info = SCANS[uid]
            lo = lmin(k)
            if lo is not None and lo >= 1:
                new, _ = info.step(k - 1)
                return new[s](*idx)
        return None

    out = ZERO
    for (bv, fs), c in t.m.items():
        if not any(a.kind == "carry" for a, _ in fs):
            out = out + T({(bv, fs): c})
            continue
        ren, fresh = TT._unbind(bv)
        acc = UNIT
        for a, e in fs:
            na = T._of_atom(a).subst(ren) if ren else T._of_atom(a)
            if a.kind == "carry":
                (kk, cc), = na.m.items()
                r = f(kk[1][0][0])
                na = r if r is not None else na
            acc = acc * power(na, e)
        for w in fresh:
            acc = bsum(acc, w)
        out = out + acc.scale(c)
    return out


# -------------------------------------------------------------------------- user functions


@rule("jxv_gram")
def _gram_rule(eqn, a):
    from . import laws
    return Arr((a.shape[0], a.shape[0]),
               lambda i, j: laws.gram_rewrite(esum(a.shape[1], lambda k: a(i, k) * a(j, k))))


@rule("jxv_uf")
def _uf(eqn, *ins):
    """Uninterpreted function / its multilinear derivative, possibly with batch levels."""
    p = eqn.params
    name, oshape_, na, slots, mask = p["name"], p["oshape"], p["nargs"], p["slots"], p["mask"]
    nl = len(mask[0]) if mask else 0
    sh = oshape(eqn)
    orank = len(sh) - nl
    ct = p["ct"]

    def f(*i):
        lev, o = i[:nl], i[nl:]

        def view(q):
            a = ins[q]
            pre = [l for l, b in zip(lev, mask[q]) if b]
            return Arr(a.shape[len(pre):], lambda *r: a(*pre, *r))
        args = [view(q) for q in range(na)]
        fargs = tuple(freeze(a) for a in args)
        tans = [view(na + q) for q in range(len(slots))]

        def go(q, ders, out):
            if q == len(slots):
                return REBUILD["uf"]((name, fargs, tuple(out), tuple(ders)))
            tn = tans[q]
            return sum_over(list(tn.shape), lambda j: _mul0(tn(*j), lambda: go(q + 1, ders + [(slots[q], j)], out)))

        if ct is None:
            return go(0, [], o)
        # transposed: derivative index of slot ct is the output index, contracted with the cotangent
        cta = view(na + len(slots))
        slot = ct

        def go2(q, ders, out):
            if q == len(slots):
                return REBUILD["uf"]((name, fargs, tuple(out), tuple(ders)))
            tn = tans[q]
            return sum_over(list(tn.shape), lambda j: _mul0(tn(*j), lambda: go2(q + 1, ders + [(slots[q], j)], out)))
        return sum_over(list(cta.shape), lambda j: _mul0(cta(*j), lambda: go2(0, [(slot, tuple(o))], j)))
    return Arr(sh, f)


def _mul0(t, g):
    return ZERO if not t.m else t * g()


def uf_atom(data):
    name, args, out, ders = data
    ders = tuple(sorted(ders, key=lambda q: (q[0], tuple(lin_key(l) for l in q[1]))))
    return T._of_atom(Atom("uf", (name, args, out, ders)))


REBUILD["uf"] = uf_atom
TT.CONG_KINDS.add("uf")


@rule("jxv_linspace")
def _linspace(eqn, a, b):
    CONTRACTS_USED.add("linspace(a,b,n)[i] = a + i*(b-a)/(n-1)")
    n = dim_of(eqn.params["num"])
    div = n - 1 if eqn.params["endpoint"] else n

    def f(i):
        if n == Lin.of(1):
            return a()
        return a() + lin2t(i) * (b() - a()) * power(lin2t(div), F(-1))
    return Arr((n,), f)


@rule("jxv_prepend")
def _prepend(eqn, x, y):
    CONTRACTS_USED.add("jnp.insert(x,pos,y,axis)[..]: x shifted by one at pos")
    ax, pos = eqn.params["axis"], eqn.params["pos"]
    pos = dim_of(pos)
    sh = oshape(eqn)

    def f(*i):
        k = i[ax]
        yi = [v for q, v in enumerate(i) if q != ax]
        yi = yi[len(yi) - y.ndim:] if y.ndim else []
        vy = lambda: y(*yi)
        pre = lambda: x(*i)
        post = lambda: x(*[v - 1 if q == ax else v for q, v in enumerate(i)])
        e = iv_eq(k - pos)
        if e == UNIT:
            return vy()
        g = iv_ge(k - pos - 1)
        out = ZERO
        if e.m:
            out = out + e * vy()
        if g.m:
            out = out + g * post()
        l = UNIT - e - g
        if l.m:
            out = out + l * pre()
        return out
    return Arr(sh, f)


@rule("jxv_opaque")
def _opaque(eqn, *ins):
    """Contract stub: outputs are uninterpreted functions of the full argument values."""
    p = eqn.params
    args = [None]

    def fz():
        if args[0] is None:
            args[0] = tuple(freeze(a) for a in ins)
        return args[0]
    CONTRACTS_USED.add("callee contract: " + p["name"])
    outs = []
    for q, o in enumerate(eqn.outvars):
        nm = ("S" if p["sym"][q] else "O", p["name"], q, p["static"])
        outs.append(Arr(shp(o.aval), lambda *i, nm=nm: REBUILD["fn"]((nm, fz(), tuple(i)))))
    return outs


# ------------------------------------------------------------------------------ randomness
# keys are arrays of 32-bit words: atom ('keyw', key, word)


def wrap_keys(a):
    """raw words [..., 2] -> key array whose elements are ('keyw', key, 0) atoms."""
    def f(*i):
        w0, w1 = a(*i, Lin.of(0)), a(*i, Lin.of(1))
        return key_of_words(w0, w1)
    return Arr(a.shape[:-1], f)


def single_atom(t):
    if len(t.m) == 1:
        ((bv, fs), c), = t.m.items()
        if c == 1 and not bv and len(fs) == 1 and fs[0][1] == 1:
            return fs[0][0]
    return None


def key_of_words(w0, w1):
    a0, a1 = single_atom(w0), single_atom(w1)
    if a0 is not None and a1 is not None and a0.kind == "keyw" and a1.kind == "keyw" \
            and a0.data[0] == a1.data[0] and a0.data[1] == Lin.of(0) and a1.data[1] == Lin.of(1):
        return T._of_atom(Atom("key", (a0.data[0],)))
    return T._of_atom(Atom("key", (("raw", w0, w1),)))


def key_term(t):
    a = single_atom(t)
    if a is None:
        raise Unsupported("key expression")
    if a.kind == "key":
        return a.data[0]
    return ("raw", t)


def root_key(name, shape=()):
    """raw uint32 key array (shape + (2,)) of independent root keys."""
    return Arr(tuple(shape) + (2,), lambda *i: atom("keyw", ("root", name, tuple(i[:-1])), i[-1]))


@rule("random_wrap")
def _rwrap(eqn, a):
    return wrap_keys(a)


@rule("random_unwrap")
def _runwrap(eqn, a):
    return Arr(oshape(eqn), lambda *i: atom("keyw", key_term(a(*i[:-1])), i[-1]))


@rule("random_split")
def _rsplit(eqn, a):
    sh = eqn.params["shape"]
    sh = tuple(dim_of(x) for x in (sh if isinstance(sh, tuple) else (sh,)))
    nb = a.ndim

    def f(*i):
        return T._of_atom(Atom("key", (("split", key_term(a(*i[:nb])), sh, tuple(i[nb:])),)))
    return Arr(tuple(a.shape) + sh, f)


@rule("random_fold_in")
def _rfold(eqn, a, m):
    def f(*i):
        return T._of_atom(Atom("key", (("fold", key_term(a(*i) if a.ndim else a()), m(*i) if m.ndim else m()),)))
    return Arr(oshape(eqn), f)


@rule("random_seed")
def _rseed(eqn, s):
    return Arr(oshape(eqn), lambda *i: T._of_atom(Atom("key", (("seed", s(*i)),))))


@rule("random_bits")
def _rbits(eqn, a):
    return Arr(oshape(eqn), lambda *i: atom("rnd", "bits", key_term(a(*i[:a.ndim])), oshape(eqn)[a.ndim:], tuple(i[a.ndim:])))


def lone_key(a, sh):
    """A key array with a single element used as one key."""
    one = Lin.of(1)
    if a.ndim and all(s == one for s in a.shape) and tuple(sh[:a.ndim]) != tuple(a.shape):
        z = tuple(Lin.of(0) for _ in a.shape)
        return Arr((), lambda: a(*z))
    return a


def _normal_named(eqn, a):
    if not eqn.invars[0].aval.dtype.name.startswith("key"):
        return None
    CONTRACTS_USED.add("jax.random.normal: i.i.d. N(0,1) per (key, index)")
    sh = oshape(eqn)
    a = lone_key(a, sh)
    nb = a.ndim
    if tuple(a.shape) != tuple(sh[:nb]):
        raise Unsupported("batched key")
    return [Arr(sh, lambda *i: atom("rnd", "normal", key_term(a(*i[:nb])), sh[nb:], tuple(i[nb:])))]


NAMED["_normal"] = _normal_named
NAMED["_normal_real"] = _normal_named


def _uniform_named(eqn, a, lo, hi):
    sh = oshape(eqn)
    a = lone_key(a, sh)
    nb = a.ndim
    CONTRACTS_USED.add("jax.random.uniform: i.i.d. U(0,1) per (key, index)")
    return [Arr(sh, lambda *i: lo() + (hi() - lo()) *
                atom("rnd", "uniform", key_term(a(*i[:nb])), sh[nb:], tuple(i[nb:])))]


NAMED["_uniform"] = _uniform_named


def identity_like(a):
    """Is the square array exactly the identity?"""
    try:
        n = a.shape[-1]
        i, j = ix(n), ix(n)
        pre = tuple(Lin.of(0) for _ in a.shape[:-2])
        if any(s != Lin.of(1) for s in a.shape[:-2]):
            return False
        if n.is_const():
            return all(a(*pre, Lin.of(p), Lin.of(q)) == (UNIT if p == q else ZERO)
                       for p in range(n.k) for q in range(n.k))
        for x in index_cases(n):
            for y in index_cases(n):
                if not is_zero(a(*pre, x, y) - iv_eq(x - y)):
                    return False
        return True
    except Unsupported:
        return False


def _mvn_named(eqn, a, mean, cov):
    CONTRACTS_USED.add("jax.random.multivariate_normal(key,m,C): N(m,C) per key")
    sh = oshape(eqn)
    a = lone_key(a, sh)
    nb = a.ndim
    if nb != 0 or mean.ndim != 1 or cov.ndim != 2:
        return None
    ident = identity_like(cov)
    fr = [None]

    def f(*i):
        if ident:
            g = atom("rnd", "normal", key_term(a()), sh, tuple(i))
        else:
            if fr[0] is None:
                fr[0] = freeze(cov)
            g = atom("rnd", "mvn", (key_term(a()), fr[0]), sh, tuple(i))
        return mean(i[-1]) + g
    MVN_COV[id(cov)] = cov
    if not ident:
        MVN.append(cov)
    return [Arr(sh, f)]


MVN = []
MVN_COV = {}
NAMED["_multivariate_normal"] = _mvn_named


# ---------------------------------------------------------------------------- linear algebra


def mat(a, i, j):
    return a(Lin.of(i), Lin.of(j))


def matmul_np(A, B):
    n, k, m = len(A), len(B), len(B[0])
    out = []
    for i in range(n):
        row = []
        for j in range(m):
            t = ZERO
            for q in range(k):
                if A[i][q].m and B[q][j].m:
                    t = t + A[i][q] * B[q][j]
            row.append(t)
        out.append(row)
    return out


def _expm_named(eqn, a, *rest):
    nb = a.ndim - 2
    memo = {}

    def f(*i):
        key = tuple(i[:nb])
        g = memo.get(key)
        if g is None:
            g = memo[key] = expm_fn(Arr(a.shape[nb:], lambda *r: a(*key, *r)))
        return g(i[nb], i[nb + 1])
    return [Arr(a.shape, f)]


def expm_fn(a):
    """Elements of exp(a) for a square matrix a."""
    if a.shape[0].is_const():
        n = a.shape[0].k
        M = [[mat(a, i, j) for j in range(n)] for i in range(n)]
        if all(not M[i][j].m for i in range(n) for j in range(n) if i != j):
            CONTRACTS_USED.add("expm(diagonal M) = entrywise exponential")
            E = [[t_exp(M[p][p]) if p == q else ZERO for q in range(n)] for p in range(n)]
            return lambda i, j: pickmat(E, i, j)
        # mu I + N with N nilpotent: exact finite sum
        mu = ZERO
        for i in range(n):
            mu = mu + M[i][i].scale(F(1, n))
        M = [[M[i][j] - mu if i == j else M[i][j] for j in range(n)] for i in range(n)]
        P = [[UNIT if i == j else ZERO for j in range(n)] for i in range(n)]
        acc = [r[:] for r in P]
        fact = 1
        for k in range(1, n + 1):
            P = matmul_np(P, M)
            fact *= k
            if all(is_zero(x) for r in P for x in r):
                CONTRACTS_USED.add("expm(mu I + N), N nilpotent = e^mu times a finite power series")
                em = t_exp(mu)
                acc = [[em * x for x in r] for r in acc]
                return lambda i, j: pickmat(acc, i, j)
            for i in range(n):
                for j in range(n):
                    acc[i][j] = acc[i][j] + P[i][j].scale(F(1, fact))
    else:
        r = expm_shift(a)
        if r is not None:
            return r
    CONTRACTS_USED.add("expm(M): the matrix exponential (uninterpreted, congruent)")
    fr = [None]

    def f(i, j):
        if fr[0] is None:
            fr[0] = freeze(a)
        return REBUILD["fn"]((("O", "expm", 0, ()), (fr[0],), (i, j)))
    return f


def expm_shift(a):
    """exp(c N) for the shift N(i, j) = [j = i+1] of symbolic size: (c N)^m / m! summed, N^m(i, j) = [j = i+m]."""
    n = a.shape[0]
    try:
        g = ix(n - 1)
        c = a(g, g + 1)
        if not c.m or g.vars()[0] in c.fv() or not t_positive(c):
            return None
        for i in arr_indices(a):
            if not is_zero(a(*i) - c * iv_eq(i[1] - i[0] - 1)):
                return None
    except Unsupported:
        return None
    CONTRACTS_USED.add("expm(c N), N the shift = Toeplitz matrix of c^m / m!")

    def f(i, j):
        m = lin2t(j - i)
        ge = iv_ge(j - i)
        return ge * power_lin(c, m) * power(factorial_term(m), F(-1)) if ge.m else ZERO
    return f


def pickmat(M, i, j):
    if i.is_const() and j.is_const():
        return M[i.k][j.k]
    out = ZERO
    for p in range(len(M)):
        for q in range(len(M[0])):
            if M[p][q].m:
                out = out + iv_eq(i - p) * iv_eq(j - q) * M[p][q]
    return out


NAMED["expm"] = _expm_named


def zero_mat(a):
    try:
        return all(not a(*i).m for i in arr_indices(a))
    except Unsupported:
        return False


def _sqrtm_named(eqn, a):
    if a.ndim != 2:
        return None
    CONTRACTS_USED.add("sqrtm(P): S with S S = P (uninterpreted, congruent)")
    if zero_mat(a):
        return [a]
    fr = [None]
    symm = is_symmetric(a)
    sq = sqrtm_blocks(a)
    if sq is not None:
        return [sq]

    def f(i, j):
        if fr[0] is None:
            fr[0] = freeze(a)
        return REBUILD["fn"]((("S" if symm else "O", "sqrtm", 0, ()), (fr[0],), (i, j)))
    return [Arr(a.shape, f)]


def sqrtm_blocks(a):
    """Diagonal matrices: entrywise root."""
    try:
        if not a.shape[0].is_const():
            return None
        n = a.shape[0].k
        M = [[mat(a, i, j) for j in range(n)] for i in range(n)]
        if any(M[i][j].m for i in range(n) for j in range(n) if i != j):
            return None
        R = [[power(M[i][i], F(1, 2)) if i == j else ZERO for j in range(n)] for i in range(n)]
        return Arr(a.shape, lambda i, j: pickmat(R, i, j))
    except Unsupported:
        return None


NAMED["_sqrtm"] = _sqrtm_named
NAMED["sqrtm"] = _sqrtm_named


def is_symmetric(a):
    try:
        if a.shape[-1] != a.shape[-2]:
            return False
        for i in arr_indices(a):
            j = i[:-2] + (i[-1], i[-2])
            if not is_zero(a(*i) - a(*j)):
                return False
        return True
    except Unsupported:
        return False


def _chol(a, lower=True):
    CONTRACTS_USED.add("cholesky(S): lower triangular L with L L^T = S, positive diagonal")
    if a.ndim == 2 and a.shape[0].is_const():
        n = a.shape[0].k
        try:
            M = [[mat(a, i, j) for j in range(n)] for i in range(n)]
            if all(len(x.m) <= 1 for r in M for x in r):
                L = [[ZERO] * n for _ in range(n)]
                ok = True
                for j in range(n):
                    s = M[j][j]
                    for k in range(j):
                        s = s - L[j][k] * L[j][k]
                    if not s.m:
                        ok = False
                        break
                    L[j][j] = power(s, F(1, 2))
                    for i in range(j + 1, n):
                        s = M[i][j]
                        for k in range(j):
                            s = s - L[i][k] * L[j][k]
                        L[i][j] = s * power(L[j][j], F(-1)) if s.m else ZERO
                if ok:
                    return Arr(a.shape, lambda i, j: pickmat(L, i, j))
        except (Unsupported, ZeroDivisionError):
            pass
    fr, units = [None], {}

    def unit_row(x):
        """Row x of the (symmetric) matrix is a unit vector: so are row and column x of the factor."""
        if x not in units:
            units[x] = False
            try:
                for y in cover(a, 1):
                    if not is_zero(a(x, y) - iv_eq(x - y)):
                        break
                else:
                    units[x] = True
            except Unsupported:
                pass
        return units[x]

    def f(*i):
        if a.ndim != 2:
            raise Unsupported("batched cholesky")
        if not a.shape[0].is_const() and (unit_row(i[0]) or unit_row(i[1])):
            return iv_eq(i[0] - i[1])
        if fr[0] is None:
            fr[0] = freeze(a)
        return REBUILD["fn"]((("L", "chol", 0, ()), (fr[0],), tuple(i)))
    return Arr(a.shape, f)


@rule("qr")
def _qr(eqn, a):
    """QR of A (columns c): R upper triangular with R^T R = A^T A, zero below row c."""
    if a.ndim != 2:
        raise Unsupported("batched qr")
    CONTRACTS_USED.add("qr(A): R upper triangular with R^T R = A^T A")
    r, c = a.shape
    if lmin(r - c) is None or lmin(r - c) < 0:
        raise Unsupported("qr of a wide matrix")
    from . import laws
    P = Arr((c, c), lambda i, j: laws.gram_rewrite(esum(r, lambda k: _mul0(a(k, i), lambda: a(k, j)))))
    fr = [None]

    def R(i, j):
        if fr[0] is None:
            fr[0] = (freeze(P), freeze(a))
        out = REBUILD["fn"]((("L", "chol", 1, ()), fr[0], (j, i)))
        lo = lmin(c - 1 - i)
        if lo is None or lo < 0:
            out = out * iv_ge(c - 1 - i)
        return out

    def Q(*i):
        raise Unsupported("the orthogonal factor of a QR decomposition")
    return [Arr(shp(eqn.outvars[0].aval), Q), Arr(shp(eqn.outvars[1].aval), R)]


@rule("cholesky")
def _chol_rule(eqn, a):
    return _chol(a)


def _chol_named(eqn, a):
    # numpy-level cholesky: symmetrises its input first; equal on symmetric input
    if not is_symmetric(a):
        return None
    L = _chol(a)
    return [L]


NAMED["cholesky"] = _chol_named


def inverse_fn(A):
    """Elements of A^{-1}."""
    n = A.shape[0]
    if n == Lin.of(1):
        return lambda i, j: power(A.at(0, 0), F(-1))
    symm = is_symmetric(A)
    fr = [None]

    def f(i, j):
        if fr[0] is None:
            fr[0] = freeze(A)
        return REBUILD["fn"]((("S" if symm else "O", "inv", 0, ()), (fr[0],), (i, j)))
    return f


@rule("custom_linear_solve")
def _cls(eqn, *ins):
    p = eqn.params
    cl = p["const_lengths"]
    lens = [cl.matvec, cl.vecmat, cl.solve, cl.transpose_solve]
    mvc = list(ins[:cl.matvec])
    bs = list(ins[sum(lens):])
    if len(bs) != 1:
        raise Unsupported("multi-output linear solve")
    CONTRACTS_USED.add("linear solve: x with A x = b for the given matvec A")
    b = bs[0]
    # identify A: matvec acts on the last axis of b ([..., n])
    n = b.shape[-1]
    pre = b.shape[:-1]

    def unit(j):
        return Arr(b.shape, lambda *i: iv_eq(i[-1] - j))

    memo = {}

    def A(p_, i, j):
        r = memo.get(j)
        if r is None:
            r = memo[j] = eval_closed(p["jaxprs"].matvec, mvc + [unit(j)])[0]
        return r(*p_, i)

    gen = tuple(ix(e) for e in pre)
    gi, gj = ix(n), ix(n)
    gv = {v for q in gen for v in q.vars()}
    shared = not pre or not (gv & set(A(gen, gi, gj).fv()))
    invs = {}

    def inv(p_):
        if shared:
            p_ = tuple(Lin() for _ in pre)
        r = invs.get(p_)
        if r is None:
            r = invs[p_] = inverse_fn(Arr((n, n), lambda i, j: A(p_, i, j)))
        return r

    def f(*i):
        g = inv(tuple(i[:-1]))
        return esum(n, lambda q: _mul0(b(*i[:-1], q), lambda: g(i[-1], q)))
    return [Arr(b.shape, f)]


@rule("device_put")
def _dput(eqn, *ins):
    return list(ins)


@rule("sort")
def _sort(eqn, *ins):
    ax = eqn.params["dimension"]
    if ins[0].shape[ax] != Lin.of(1):
        raise Unsupported("primitive sort")
    return list(ins)


@rule("lu")
def _lu(eqn, a):
    def bad(*i):
        raise Unsupported("lu factors")
    return [Arr(shp(o.aval), bad) for o in eqn.outvars]


CHOLINV = {}


def _chol_inverse(n, tri, low):
    """Inverse of a triangular matrix that is (a leading block of) a Cholesky factor, or the transpose of one:
    both presented as the inverse of the lower factor L, for which L^-T L^-1 = (L L^T)^-1."""
    from . import laws
    if n == Lin.of(1):
        return None
    i, j = ix(n), ix(n)
    try:
        t = laws.strip_tri(tri(i, j))
    except Unsupported:
        return None
    if len(t.m) != 1:
        return None
    (((bv, fs), c),) = t.m.items()
    if bv or c != 1 or len(fs) != 1 or fs[0][1] != 1:
        return None
    x = fs[0][0]
    if x.kind != "fn" or not isinstance(x.data[0], tuple) or x.data[0][:2] != ("L", "chol"):
        return None
    up = x.data[2] == (j, i)
    if not up and x.data[2] != (i, j) or up == low:
        return None
    name, args, _ = x.data
    L = Arr((n, n), lambda r, q: iv_ge(r - q) * REBUILD["fn"]((name, args, (r, q))))
    g = inverse_fn(L)
    P = args[0]
    CHOLINV[freeze(L)] = Arr((n, n), lambda r, q: laws.thaw(P, r, q))
    return (lambda r, q: g(q, r)) if up else g


@rule("triangular_solve")
def _tri(eqn, a, b):
    p = eqn.params
    if a.ndim != 2 or p["conjugate_a"]:
        raise Unsupported("triangular_solve form")
    CONTRACTS_USED.add("triangular_solve: x with tri(A) x = b")
    low, tr, unitd = p["lower"], p["transpose_a"], p["unit_diagonal"]

    def tri(i, j):
        if unitd:
            off = iv_ge((i - j if low else j - i) - 1)
            return off * a(i, j) + iv_eq(i - j)
        return iv_ge(i - j if low else j - i) * a(i, j)
    n = a.shape[0]
    inv = _chol_inverse(n, tri, low) if not unitd else None
    if inv is not None:
        if tr:
            inv = (lambda g: lambda i, j: g(j, i))(inv)
    else:
        inv = inverse_fn(Arr(a.shape, (lambda i, j: tri(j, i)) if tr else tri))
    if p["left_side"]:
        return Arr(b.shape, lambda i, j: esum(n, lambda q: _mul0(b(q, j), lambda: inv(i, q))))
    return Arr(b.shape, lambda i, j: esum(n, lambda q: _mul0(b(i, q), lambda: inv(q, j))))


@rule("outside_call")
def _outside(eqn, *ins):
    """host_callback taps: identity on data; recorded for the progress-bar contract."""
    TAPS.append(eqn)
    return list(ins)[:len(eqn.outvars)]


TAPS = []
