"""Lazily indexed arrays of exact terms, with possibly symbolic extents."""
from fractions import Fraction
import math
import numpy as np
from .terms import (T, Lin, Var, F, ZERO, UNIT, Unsupported, atom, big_sum, iv_ge, iv_eq, lmin, lmax,
                    lin2t, rat_pow, ix, sym_atom)


class Arr:
    __slots__ = ("shape", "f", "memo", "np")

    def __init__(self, shape, f, np_=None):
        self.shape = tuple(Lin.of(s) for s in shape)
        self.f = f
        self.memo = {}
        self.np = np_

    @property
    def ndim(self):
        return len(self.shape)

    def __call__(self, *idx):
        r = self.memo.get(idx)
        if r is None:
            if len(idx) != len(self.shape):
                if not self.shape:
                    return self()  # rank-0 operand of an elementwise primitive
                raise Unsupported("rank mismatch")
            r = self.f(*idx)
            self.memo[idx] = r
        return r

    def at(self, *idx):
        return self(*[Lin.of(i) for i in idx])


def scalar(t):
    return Arr((), lambda: t)


def is_int_shape(shape):
    return all(s.is_const() for s in shape)


_rec_cache = {}


def recognise(x):
    """The real number a float literal denotes (see DESIGN.md: machine numbers as reals)."""
    x = float(x)
    t = _rec_cache.get(x)
    if t is None:
        t = _rec_cache[x] = _recognise(x)
    return t


def _recognise(x):
    if math.isnan(x) or math.isinf(x):
        return atom("sym", f"<{x}>", ())
    if x == int(x) and abs(x) < 1e15:
        return T.const(int(x))
    r = repr(x)
    digits = r.replace("-", "").replace(".", "").split("e")[0].lstrip("0")
    if len(digits) <= 9:
        return T.const(Fraction(r))
    fr = Fraction(x).limit_denominator(5000)
    if fr and abs(float(fr) - x) <= 4e-16 * abs(x):
        return T.const(fr)
    sq = Fraction(x * x).limit_denominator(2000)
    if sq and abs(math.sqrt(float(sq)) - abs(x)) <= 4e-16 * abs(x):
        return rat_pow(sq, Fraction(1, 2)).scale(1 if x > 0 else -1)
    f32 = np.float32(x)
    if float(f32) == x:
        r = repr(f32).replace("np.float32(", "").rstrip(")")
        return T.const(Fraction(r))
    return T.const(Fraction(r))


def np_term(v):
    if isinstance(v, (bool, np.bool_)):
        return UNIT if v else ZERO
    if isinstance(v, (int, np.integer)):
        return T.const(int(v))
    return recognise(v)


def from_np(x):
    x = np.asarray(x)
    if x.dtype.kind == "c":
        if np.any(x.imag != 0):
            raise Unsupported("complex constant")
        x = x.real
    if x.dtype.kind not in "biuf":
        raise Unsupported(f"constant dtype {x.dtype}")

    def f(*idx):
        if all(i.is_const() for i in idx):
            q = tuple(i.k for i in idx)
            if any(p < 0 or p >= n for p, n in zip(q, x.shape)):
                return ZERO  # value never used: guarded by a bracket that is 0
            return np_term(x[q])
        if x.size and np.all(x == x.flat[0]):
            return np_term(x.flat[0])
        if x.ndim == 1 and len(x) > 2 and x.dtype.kind in "iu":
            dd = np.diff(x)
            if np.all(dd == dd[0]):
                return lin2t(idx[0] * int(dd[0]) + int(x[0]))
        if x.size <= 64:
            out = ZERO
            for q in np.ndindex(*x.shape):
                t = np_term(x[q])
                if t.m:
                    for i, p in zip(idx, q):
                        t = t * iv_eq(i - p)
                    out = out + t
            return out
        raise Unsupported("symbolic index into a large constant")

    return Arr(x.shape, f, x)


def sym_array(name, shape):
    return Arr(shape, lambda *i: sym_atom((name, tuple(i))))


def index_cases(ext):
    """Indices covering 0..ext-1 generically: constants, c*q+r, segments."""
    ext = Lin.of(ext)
    if ext.is_const():
        return [Lin.of(q) for q in range(ext.k)]
    out = []
    off = Lin()
    parts = list(ext.c)
    if any(a < 0 for _, a in parts) or ext.k < 0:
        return [ix(ext)]
    for v, a in parts:
        q = ix(Lin.of(v))
        for r in range(a):
            out.append(off + q * a + r)
        off = off + Lin.of(v) * a
    for r in range(ext.k):
        out.append(off + r)
    return out


def all_indices(shape):
    out = [()]
    for s in shape:
        out = [o + (c,) for o in out for c in index_cases(s)]
    return out


def _cuts(w, t):
    """Positions at which a term in w changes branch (concatenation boundaries)."""
    out = []
    for a in t.atoms(False):
        if a.kind == "iv" and w in a.fv:
            c = dict(a.data[1].c).get(w)
            if c is None or w in a.data[1].prods():
                continue
            rest = a.data[1] - Lin(((w, c),), 0)
            if abs(c) != 1 or any(v.kind != "dim" for v in rest.vars()):
                continue
            if a.data[0] == "ge":
                out.append(-rest if c == 1 else rest + 1)
            else:
                p = rest * (-c)
                out += [p, p + 1]
    return out


def splits(ext, probe=None):
    """Generic cover of 0..ext-1: list of (offset, stride, length); length None = single index."""
    ext = Lin.of(ext)
    if ext.is_const():
        return [(Lin.of(k), 0, None) for k in range(ext.k)]
    parts = list(ext.c)
    if any(a < 0 for _, a in parts) or ext.k < 0 or (len(parts) == 1 and parts[0][1] == 1 and ext.k == 0):
        return [(Lin(), 1, ext)]
    if probe is not None:
        from .terms import _fresh
        _fresh[0] += 1
        w = Var("t", _fresh[0], ext)
        try:
            cs = _cuts(w, probe(Lin.of(w)))
        except Unsupported:
            cs = []
        r = _ordered([Lin(), ext] + cs)
        if r is not None and len(r) > 2:
            out = []
            for a, b in zip(r, r[1:]):
                n = b - a
                if n.is_const():
                    out += [(a + q, 0, None) for q in range(n.k)]
                else:
                    out.append((a, 1, n))
            if all(e is None or (len(e.c) == 1 and e.c[0][1] == 1 and e.k == 0) for _, _, e in out):
                return out
    out, off = [], Lin()
    for v, a in parts:
        for r in range(a):
            out.append((off + r, a, Lin.of(v)))
        off = off + Lin.of(v) * a
    return out + [(off + r, 0, None) for r in range(ext.k)]


def _ordered(ps):
    out = []
    for p in ps:
        if p in out:
            continue
        k = 0
        for k in range(len(out) + 1):
            if k == len(out):
                break
            d = out[k] - p
            lo = lmin(d)
            if lo is not None and lo >= 0:
                break
            hi = lmax(d)
            if hi is None or hi > 0:
                return None
        out.insert(k, p)
    return out


def axis_splits(a, ax):
    def probe(w):
        from .terms import _fresh
        idx = []
        for q, s in enumerate(a.shape):
            if q == ax:
                idx.append(w)
            elif s.is_const():
                idx.append(Lin())
            else:
                _fresh[0] += 1
                idx.append(Lin.of(Var("t", _fresh[0], s)))
        return a(*idx)
    return splits(a.shape[ax], probe)


def arr_indices(*arrs):
    """Generic indices covering the (common) shape of the arrays."""
    out = [()]
    for ax in range(arrs[0].ndim):
        best = None
        for a in arrs:
            sp = axis_splits(a, ax)
            if best is None or any(st == 1 and e is not None for _, st, e in sp) and len(sp) > 1:
                best = sp
        pair = paired(arrs[0].shape[ax])
        if pair is not None and len(best) == 1:
            n, w = pair
            best = [(Lin.of(q), w, n) for q in range(3)] + [(ix(w - 4) + 3, w, n), (w - 1, w, n)]
        new = []
        for o in out:
            for off, st, e in best:
                new.append(o + ((off if e is None else off + ix(e) * st),))
        out = new
    return out


def cover(a, ax):
    """Generic indices covering one axis of an array."""
    pair = paired(a.shape[ax])
    if pair is not None:
        n, w = pair
        return [q + ix(n) * w for q in [Lin.of(q) for q in range(3)] + [ix(w - 4) + 3, w - 1]]
    return [off if e is None else off + ix(e) * st for off, st, e in axis_splits(a, ax)]


def paired(ext):
    """(n, s) for an extent n*s with a size s used as a stride."""
    from .terms import LOWER, dim, dim_factors
    if len(ext.c) == 1 and ext.k == 0 and ext.c[0][1] == 1:
        f = dim_factors(ext.c[0][0])
        for x in LOWER:
            if len(f) > 1 and x in f:
                f.remove(x)
                return dim("*".join(f)), dim(x)
    return None


def esum(ext, f):
    """Sum over an extent, split canonically (c*v into residues, a+b into segments)."""
    ext = Lin.of(ext)
    if ext.is_const():
        if ext.k > 256:
            return big_sum_sym(ext, f)
        return big_sum(ext, f)
    pair = paired(ext)
    if pair is not None:
        try:
            return big_sum(ext, f)
        except Unsupported:
            n, w = pair
            return big_sum(n, lambda i: big_sum(w, lambda j: f(i * w + j)))
    out = ZERO
    for off, st, e in splits(ext, f):
        if e is None:
            out = out + f(off)
        else:
            out = out + big_sum(e, lambda q: f(off + q * st))
    return out


def big_sum_sym(ext, f):
    from .terms import _fresh, bsum
    _fresh[0] += 1
    w = Var("t", _fresh[0], ext)
    return bsum(f(Lin.of(w)), w)


def idivmod(n, s):
    """(n // s, n % s) for an index n >= 0 and a positive constant s."""
    n = Lin.of(n)
    if s == 1:
        return n, Lin()
    if n.is_const():
        return Lin.of(n.k // s), Lin.of(n.k % s)
    q = Lin(tuple((v, a // s) for v, a in n.c if a % s == 0), 0)
    r = n - q * s
    q = q + r.k // s
    r = Lin(r.c, r.k % s)
    lo, hi = lmin(r), lmax(r)
    if lo is not None and hi is not None and lo // s == hi // s:
        return q + lo // s, r - (lo // s) * s
    raise Unsupported(f"undetermined div/mod {n} by {s}")


def freeze(a):
    """Canonical, hashable description of an array value (argument of an uninterpreted function)."""
    conc = [s.is_const() for s in a.shape]
    if all(conc):
        return ("arr", tuple(s.k for s in a.shape), tuple(a(*i) for i in all_indices(a.shape)))
    from .terms import make_lam
    sy = [k for k, c in enumerate(conc) if not c]
    items = []
    ranges = [range(s.k) if c else [None] for s, c in zip(a.shape, conc)]
    import itertools

    axes = tuple(tuple(axis_splits(a, q)) for q in range(a.ndim))

    def fill():
        for combo in itertools.product(*axes):
            exts = [x for _, _, e in combo if e is not None for x in (e if isinstance(e, tuple) else (e,))]
            if not exts:
                items.append(a(*[o for o, _, _ in combo]))
                continue

            def body(qs):
                it = iter(qs)
                return a(*[o if e is None else next(it) * st + next(it) if isinstance(e, tuple) else o + next(it) * st
                           for o, st, e in combo])

            items.append(make_lam(exts, body))
    try:
        fill()
    except Unsupported:
        # indices of the form i*n + j
        pairs = [paired(s) for s in a.shape]
        if not any(pairs):
            raise
        del items[:]
        axes = tuple(((Lin(), p[1], p),) if p else x for p, x in zip(pairs, axes))
        fill()
    return ("arr", tuple(a.shape), tuple(items), axes)
