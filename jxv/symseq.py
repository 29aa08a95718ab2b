"""
Python lists whose length is a symbolic size.

`range(n)` with a symbolic n, in the code under verification, is a SymRange; a comprehension over it is a
SymSeq: one element function of a generic index.  jnp.array / stack / concatenate / block / ... of a SymSeq is
the element function mapped over arange(n) (jax.vmap), i.e. the array the concrete list would have given for
every n.  Branches of the element function on the index become jnp.where.  Everything else done with such a
list (len via __len__, iteration, membership, negative indexing, ...) is refused.

Comprehensions are found by a source transformation applied when the package is imported: [e for v in it]
becomes __jxv_comp__(lambda v: e, it), which is the original comprehension for every ordinary iterable, and
displays and calls containing starred items become calls of __jxv_display__ and __jxv_call__.  Nothing else of the source is changed.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import sys

import jax
import jax.numpy as jnp
import numpy as np
from jax import core
from jax.experimental.export import shape_poly
from jax.interpreters import batching, mlir

from .terms import Unsupported

DIM = shape_poly._DimExpr


class Affine:
    """base + step*i in iteration i of a loop of symbolic length, for sizes or integers base and step: an array number
    wherever one is needed, but differences of two of them are known sizes (slices x[lo:hi])."""
    __array_priority__ = 1000

    def __init__(self, base, step, i):
        self.base, self.step, self.i = base, step, i

    def __jax_array__(self):
        return jnp.asarray(self.base + self.step * self.i)

    aval = property(lambda self: self.__jax_array__().aval)
    shape, ndim = (), 0
    dtype = property(lambda self: self.__jax_array__().dtype)

    def __add__(self, o):
        if isinstance(o, Affine):
            if o.i is self.i:
                return Affine(self.base + o.base, self.step + o.step, self.i)
            return self.__jax_array__() + o.__jax_array__()
        if static(o):
            return Affine(self.base + o, self.step, self.i)
        return self.__jax_array__() + o

    def __radd__(self, o):
        return self + o if static(o) else o + self.__jax_array__()

    def __neg__(self):
        return Affine(-self.base, -self.step, self.i)

    def __sub__(self, o):
        if isinstance(o, Affine):
            if o.i is not self.i:
                return self.__jax_array__() - o.__jax_array__()
            d = Affine(self.base - o.base, self.step - o.step, self.i)
            return d.base if isinstance(d.step, int) and d.step == 0 else d
        return self + (-o) if static(o) else self.__jax_array__() - o

    def __rsub__(self, o):
        return (-self) + o if static(o) else o - self.__jax_array__()

    def __mul__(self, o):
        if static(o):
            return Affine(self.base * o, self.step * o, self.i)
        return self.__jax_array__() * (o.__jax_array__() if isinstance(o, Affine) else o)

    def __rmul__(self, o):
        return self * o if static(o) else o * self.__jax_array__()

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self.__jax_array__(), k)

    def __bool__(self):
        return bool(self.__jax_array__() != 0)

    def __hash__(self):
        return id(self)


def _delegate(op):
    return lambda self, *o: getattr(self.__jax_array__(), op)(*[x.__jax_array__() if isinstance(x, Affine) else x for x in o])


for _op in ("truediv", "rtruediv", "floordiv", "rfloordiv", "mod", "rmod", "pow", "rpow", "lt", "le", "gt", "ge", "eq", "ne", "divmod",
            "rdivmod", "abs", "and", "rand", "or", "ror", "lshift", "rlshift", "float", "int", "index"):
    setattr(Affine, f"__{_op}__", _delegate(f"__{_op}__"))


def static(x):
    return isinstance(x, (int, DIM, np.integer)) and not isinstance(x, bool)


def plain(x):
    """Affine numbers as arrays."""
    return jax.tree_util.tree_map(lambda v: v.__jax_array__() if isinstance(v, Affine) else v, x)


class SymRange:
    def __init__(self, start, stop):
        self.start, self.stop = start, stop

    def __iter__(self):
        raise Unsupported("loop over a range of symbolic length")

    def __len__(self):
        raise Unsupported("len of a range of symbolic length")


_range = range


def sym_range(*a):
    """range() as the traced code sees it."""
    if any(isinstance(x, DIM) for x in a):
        if len(a) > 2:
            raise Unsupported("range with a step and a symbolic end")
        return SymRange(*(a if len(a) == 2 else (0, a[0])))
    return _range(*a)


class SymSeq:
    """Concatenation of segments: ('c', [elements]) or ('g', n, f)."""

    def __init__(self, segs):
        self.segs = list(segs)

    def __iter__(self):
        raise Unsupported("iteration over a list of symbolic length")

    def __len__(self):
        raise Unsupported("len of a list of symbolic length")

    def __bool__(self):
        raise Unsupported("truth of a list of symbolic length")

    def __getitem__(self, i):
        if isinstance(i, int) and i >= 0:
            for s in self.segs:
                if s[0] == "c":
                    if i < len(s[1]):
                        return s[1][i]
                    i -= len(s[1])
                elif at_least(s[1], i + 1):
                    return s[2](jnp.asarray(i))
                else:
                    break
            raise Unsupported("indexing a list of symbolic length")
        if isinstance(i, slice) and i.step in (None, 1) and i.stop is None and isinstance(i.start, int) and i.start >= 0:
            return SymSeq(dropped(self.segs, i.start))
        if isinstance(i, int) and i == -1 and self.segs:
            s = self.segs[-1]
            return s[1][-1] if s[0] == "c" else s[2](jnp.asarray(s[1] - 1))
        if isinstance(i, Affine):
            i = i.__jax_array__()
        if len(self.segs) == 1 and self.segs[0][0] == "g" and not isinstance(i, (slice, tuple)) and isinstance(i, core.Tracer):
            return self.segs[0][2](i)
        raise Unsupported("indexing a list of symbolic length")

    def __add__(self, o):
        if isinstance(o, SymSeq):
            return SymSeq(self.segs + o.segs)
        return SymSeq(self.segs + [("c", list(o))])

    def __radd__(self, o):
        return SymSeq([("c", list(o))] + self.segs)

    def append(self, x):
        self.segs = self.segs + [("c", [x])]

    def extend(self, xs):
        self.segs = (self + xs).segs

    def length(self):
        n = 0
        for s in self.segs:
            n = n + (len(s[1]) if s[0] == "c" else s[1])
        return n


def as_seq(it):
    """A SymSeq for an iterable of symbolic length, else None."""
    if isinstance(it, SymSeq):
        return it
    if isinstance(it, SymRange):
        return SymSeq([("g", it.stop - it.start, lambda i: Affine(it.start, 1, i))])
    if isinstance(it, core.Tracer) and it.ndim and isinstance(it.shape[0], DIM):
        return SymSeq([("g", it.shape[0], lambda i: it[i])])
    return None


def generic(it):
    """(n, f) of a sequence of symbolic length n with generic element f."""
    s = as_seq(it)
    if len(s.segs) == 1 and s.segs[0][0] == "g":
        return s.segs[0][1], s.segs[0][2]
    raise Unsupported("mixed list of symbolic length")


def sym_zip(*its):
    if not any(as_seq(x) is not None for x in its):
        return zip(*its)
    todo = [list(as_seq(x).segs) if as_seq(x) is not None else [("c", list(x))] for x in its]
    out = []
    while all(todo):
        heads = [t[0] for t in todo]
        if all(s[0] == "g" for s in heads) and all(s[1] == heads[0][1] for s in heads):
            out.append(("g", heads[0][1], lambda i, fs=[s[2] for s in heads]: tuple(f(i) for f in fs)))
            for t in todo:
                t.pop(0)
            continue
        row = []
        for t in todo:
            while t and t[0][0] == "c" and not t[0][1]:
                t.pop(0)
            if not t:
                break
            if t[0][0] == "c":
                row.append(t[0][1][0])
                t[0] = ("c", t[0][1][1:])
                if not t[0][1]:
                    t.pop(0)
            else:
                _, n, f = t[0]
                if not at_least(n, 1) or all(s[0] == "g" for s in heads):
                    raise Unsupported("zip of lists of different symbolic length")
                row.append(f(jnp.asarray(0)))
                t[0] = ("g", n - 1, lambda i, f=f: f(i + 1))
                if isinstance(n - 1, int):
                    t[0:1] = [("c", [f(jnp.asarray(j)) for j in _range(1, n)])]
        else:
            out.append(("c", [tuple(row)]))
            continue
        break
    return SymSeq(out)


def at_least(n, k):
    try:
        return bool(n >= k)
    except Exception:
        return False


def dropped(segs, k):
    """The segments without the first k elements."""
    segs = list(segs)
    while k and segs:
        s = segs.pop(0)
        if s[0] == "c":
            j = min(k, len(s[1]))
            segs.insert(0, ("c", s[1][j:])) if j < len(s[1]) else None
            k -= j
        elif at_least(s[1], k):
            n = s[1] - k
            if not isinstance(n, int):
                segs.insert(0, ("g", n, lambda i, f=s[2], k=k: f(i + k)))
            elif n:
                segs.insert(0, ("c", [s[2](jnp.asarray(k + j)) for j in _range(n)]))
            k = 0
        else:
            raise Unsupported("slice of a list of symbolic length")
    return segs


def sym_enumerate(it, start=0):
    s = as_seq(it)
    if s is None:
        return enumerate(it, start)
    out, at = [], start
    for q in s.segs:
        if q[0] == "c":
            out.append(("c", [(at + j, x) for j, x in enumerate(q[1])]))
            at = at + len(q[1])
        else:
            out.append(("g", q[1], lambda i, f=q[2], at=at: (Affine(at, 1, i), f(i))))
            at = at + q[1]
    return SymSeq(out)


def sym_reversed(it):
    s = as_seq(it)
    if s is None:
        return reversed(it)
    return SymSeq([("c", q[1][::-1]) if q[0] == "c" else ("g", q[1], lambda i, n=q[1], f=q[2]: f(n - 1 - i)) for q in s.segs[::-1]])


def static_element(f):
    """The element of a list as a Python number, when it is the same number (or size) at every index."""
    from .prove import PATHS
    box = []

    def probe(i):
        saved = dict(PATHS)
        try:
            PATHS.update(on=True, choices=[], pos=0, conds=[])
            v = f(i)
            if not PATHS["conds"] and isinstance(v, (int, DIM)) and not isinstance(v, bool):
                box.append(v)
        finally:
            PATHS.clear()
            PATHS.update(saved)
        return i
    try:
        jax.eval_shape(probe, jax.ShapeDtypeStruct((), jnp.int64))
    except Exception:
        return None
    return box[0] if box else None


def sym_sum(it, start=0):
    if not isinstance(it, SymSeq):
        return sum(it, start)
    total = start
    for s in it.segs:
        if s[0] == "c":
            total = sum(s[1], total)
        else:
            v = static_element(s[2])
            total = total + (s[1] * v if v is not None else jnp.sum(mapped(s[1], s[2], to_array), axis=0))
    return total


def times(a, b):
    """[x] * n"""
    for x, n in ((a, b), (b, a)):
        if isinstance(x, (list, tuple)) and isinstance(n, DIM):
            if len(x) != 1:
                raise Unsupported("repetition of a list of several elements a symbolic number of times")
            return SymSeq([("g", n, lambda i: x[0])])
    return a * b


def iadd(x, y):
    """x += y for a list and a list of symbolic length."""
    if isinstance(y, SymSeq) and isinstance(x, (list, tuple, SymSeq)):
        return x + y
    return operator.iadd(x, y)


def sym_map(f, *its):
    if any(as_seq(x) is not None for x in its):
        return comp(lambda t: f(*t), sym_zip(*its))
    return map(f, *its)


def seq(kind, it):
    """list(it), tuple(it)."""
    s = as_seq(it)
    return s if s is not None else kind(it)


def comp(f, it, lazy=False):
    if isinstance(it, core.Tracer):
        it = as_seq(it) or it
    if isinstance(it, SymRange):
        return SymSeq([("g", it.stop - it.start, lambda i: f(Affine(it.start, 1, i)))])
    if isinstance(it, SymSeq):
        return SymSeq([("c", [f(x) for x in s[1]]) if s[0] == "c" else ("g", s[1], lambda i, s=s: f(s[2](i))) for s in it.segs])
    return (f(x) for x in it) if lazy else [f(x) for x in it]


def comp_lazy(f, it):
    return comp(f, it, True)


def display(kind, *parts):
    """(a, *b, c): parts are ('e', x) or ('s', iterable)."""
    if not any(k == "s" and isinstance(x, SymSeq) for k, x in parts):
        out = []
        for k, x in parts:
            if k == "e":
                out.append(x)
            else:
                out.extend(x)
        return kind(out)
    segs = []
    for k, x in parts:
        if k == "s" and isinstance(x, SymSeq):
            segs += x.segs
        else:
            xs = [x] if k == "e" else list(x)
            if segs and segs[-1][0] == "c":
                segs[-1] = ("c", segs[-1][1] + xs)
            else:
                segs.append(("c", xs))
    return SymSeq(segs)


def call(f, kw, *parts):
    """f(a, *b, **kw): parts as for display."""
    args = display(tuple, *parts)
    if isinstance(args, SymSeq):
        if f is jax.scipy.linalg.block_diag and not kw:
            return block_diag(args)
        if f in (zip, sym_zip) and not kw:
            return transposed(args)
        raise Unsupported("call with a list of arguments of symbolic length")
    return f(*args, **kw)


def transposed(x):
    """zip(*x) for a list of symbolic length of tuples of one known length."""
    def width(e):
        if isinstance(e, (tuple, list)):
            return len(e)
        if isinstance(e, (jax.Array, core.Tracer)) and e.ndim and isinstance(e.shape[0], int):
            return e.shape[0]
        raise Unsupported("zip of a list of symbolic length")
    widths = set()
    for s in x.segs:
        if s[0] == "c":
            widths |= {width(e) for e in s[1]}
        else:
            e = jax.eval_shape(lambda i: s[2](i), jax.ShapeDtypeStruct((), jnp.arange(1).dtype))
            widths.add(width(e) if isinstance(e, (tuple, list)) else e.shape[0])
    if len(widths) != 1 or not all(isinstance(w, int) for w in widths):
        raise Unsupported("zip of a list of symbolic length")
    return tuple(comp(lambda e, q=q: e[q], x) for q in range(widths.pop()))


def block_diag(x):
    """Block-diagonal matrix of a list of symbolic length."""
    if len(x.segs) != 1 or x.segs[0][0] != "g":
        raise Unsupported("block_diag of a mixed list of symbolic length")
    M = mapped(x.segs[0][1], x.segs[0][2], lambda e: jnp.atleast_2d(to_array(e)))
    n, r, c = M.shape
    i = jnp.arange(n)
    B = jnp.where(i[:, None, None, None] == i[None, None, :, None], M[:, :, None, :], 0.0)
    return B.reshape((n * r, n * c))


def sym_len(x):
    return x.length() if isinstance(x, SymSeq) else len(x)


# ------------------------------------------------------------------------- elements as arrays


def fork(run):
    """run() with Python branches on traced values turned into jnp.where."""
    from .prove import PATHS
    saved = dict(PATHS)
    paths, choices = [], []
    try:
        while True:
            PATHS.update(on=True, choices=choices, pos=0, conds=[])
            r = run()
            choices = PATHS["choices"][:PATHS["pos"]]
            paths.append((list(choices), list(PATHS["conds"]), r))
            while choices and not choices[-1]:
                choices.pop()
            if not choices:
                break
            choices[-1] = False
            if len(paths) > 16:
                raise Unsupported("too many branches on values")
    finally:
        PATHS.clear()
        PATHS.update(saved)

    def build(ps, k):
        if len(ps) == 1:
            return ps[0][2]
        c = ps[0][1][k]
        a = build([p for p in ps if p[0][k]], k + 1)
        b = build([p for p in ps if not p[0][k]], k + 1)
        return jax.tree_util.tree_map(lambda x, y: jnp.where(c, x, y), a, b)
    return build(paths, 0)


def mapped(n, f, conv):
    """Stack of conv(f(i)) over i < n."""
    return jax.vmap(lambda i: fork(lambda: conv(f(i))))(jnp.arange(n))


def has_sym(x):
    return isinstance(x, SymSeq) or isinstance(x, (list, tuple)) and any(has_sym(e) for e in x)


def to_array(x):
    if isinstance(x, SymSeq):
        return stacked(x, to_array)
    if has_sym(x):
        return jnp.stack([to_array(e) for e in x])
    return jnp.asarray(x.__jax_array__() if isinstance(x, Affine) else x)


def stacked(x, conv):
    parts = []
    for s in x.segs:
        if s[0] == "c":
            if s[1]:
                parts.append(jnp.stack([conv(e) for e in s[1]]))
        else:
            parts.append(mapped(s[1], s[2], conv))
    return parts[0] if len(parts) == 1 else jnp.concatenate(parts, 0)


def joined(x, axis, conv=to_array):
    """concatenate of the elements along an axis."""
    if isinstance(x, SymSeq):
        parts = []
        for s in x.segs:
            if s[0] == "c":
                parts += [conv(e) for e in s[1]]
            else:
                M = mapped(s[1], s[2], conv)
                ax = axis if axis < 0 else axis - (M.ndim - 1)
                k = M.ndim + ax
                M = jnp.moveaxis(M, 0, k - 1)
                parts.append(M.reshape(M.shape[:k - 1] + (M.shape[k - 1] * M.shape[k],) + M.shape[k + 1:]))
    else:
        parts = [conv(e) for e in x]
    return jnp.concatenate(parts, axis)


def block(x):
    def depth(x):
        if isinstance(x, SymSeq):
            s = x.segs[0]
            if s[0] == "c":
                return 1 + depth(s[1][0])
            box = []

            def probe(i):
                box.append(depth(fork_first(lambda: s[2](i))))
                return i
            jax.eval_shape(probe, jax.ShapeDtypeStruct((), jnp.int64))
            return 1 + box[0]
        if isinstance(x, list):
            return 1 + depth(x[0])
        return 0
    d = depth(x)

    def go(x, k):
        if k == 0:
            a = to_array(x)
            return a.reshape((1,) * (d - a.ndim) + a.shape) if a.ndim < d else a
        return joined(x, -k, lambda e: go(e, k - 1))
    return go(x, d)


def fork_first(run):
    from .prove import PATHS
    saved = dict(PATHS)
    try:
        PATHS.update(on=True, choices=[], pos=0, conds=[])
        return run()
    finally:
        PATHS.clear()
        PATHS.update(saved)


def _wrap(name, new):
    orig = getattr(jnp, name)

    def f(x, *a, **k):
        if has_sym(x):
            return new(x, *a, **k)
        return orig(x, *a, **k)
    f.orig = orig
    return f


def _as(conv):
    def f(x, dtype=None, *a, **k):
        y = conv(x)
        return y if dtype is None else y.astype(dtype)
    return f


def _stack(x, axis=0, **k):
    return jnp.moveaxis(to_array(x), 0, axis)


def _concat(x, axis=0, **k):
    return joined(x, axis)


def _vstack(x, **k):
    return joined(x, 0, lambda e: jnp.atleast_2d(to_array(e)))


def _hstack(x, **k):
    one = []

    def conv(e):
        e = jnp.atleast_1d(to_array(e))
        one.append(e.ndim == 1)
        return e
    segs = x.segs if isinstance(x, SymSeq) else [("c", list(x))]
    parts = []
    for s in segs:
        if s[0] == "c":
            parts += [conv(e) for e in s[1]]
        else:
            parts.append(("g", s))
    gen = [mapped(p[1][1], p[1][2], conv) if isinstance(p, tuple) else p for p in parts]
    ax = 0 if all(one) else 1
    out = []
    for p, M in zip(parts, gen):
        if isinstance(p, tuple):
            M = jnp.moveaxis(M, 0, ax)
            M = M.reshape(M.shape[:ax] + (M.shape[ax] * M.shape[ax + 1],) + M.shape[ax + 2:])
        out.append(M)
    return jnp.concatenate(out, ax)


def _column_stack(x, **k):
    return jnp.moveaxis(to_array(x), 0, 1)


def make_list(n, f):
    """(f(0), ..., f(n-1)) for contracts: an ordinary tuple unless n is symbolic."""
    return SymSeq([("g", n, f)]) if isinstance(n, DIM) else tuple(f(i) for i in _range(n))


def _append(x, v, axis=None):
    raise Unsupported("append to a list of symbolic length")


def patches():
    out = {}
    for name, new in (("array", _as(to_array)), ("asarray", _as(to_array)), ("stack", _stack), ("concatenate", _concat),
                      ("vstack", _vstack), ("hstack", _hstack), ("column_stack", _column_stack), ("block", block)):
        out[name] = _wrap(name, new)
    return out


# ------------------------------------------------------------------- factorials of symbolic sizes

fact_p = core.Primitive("jxv_factorial")


@fact_p.def_abstract_eval
def _fact_abs(x):
    return core.ShapedArray(x.shape, jnp.dtype("float64"))


batching.defvectorized(fact_p)
mlir.register_lowering(fact_p, mlir.lower_fun(lambda x: jax.scipy.special.gamma(x + 1.0), multiple_results=False))
fact_p.def_impl(lambda x: jax.scipy.special.gamma(x + 1.0))


def _is_sym(x):
    return isinstance(x, (DIM, jax.Array))


def sym_factorial(n):
    import math
    n = plain(n)
    if _is_sym(n) or isinstance(n, jnp.ndarray):
        return fact_p.bind(jnp.asarray(n).astype(jnp.float64))
    return math.factorial(n)


def sym_comb(n, k):
    import math
    n, k = plain(n), plain(k)
    if _is_sym(n) or _is_sym(k):
        return sym_factorial(n) / (sym_factorial(k) * sym_factorial(n - k))
    return math.comb(n, k)


# ------------------------------------------------------------------------------- loops


class Collector:
    """The list a loop appends to, inside one iteration."""

    def __init__(self, last=None):
        self.out, self.last, self.read = [], last, False

    def append(self, x):
        self.out.append(x)

    def __getitem__(self, i):
        if i != -1:
            raise Unsupported("indexing the list a loop of symbolic length builds")
        if self.out:
            return self.out[-1]
        if self.last is None:
            self.read = True
            raise NeedLast()
        return self.last

    def __len__(self):
        raise Unsupported("len of the list a loop of symbolic length builds")

    def one(self):
        if len(self.out) != 1:
            raise Unsupported("a loop of symbolic length not appending exactly one element per iteration")
        return self.out[0]


class NeedLast(Exception):
    pass


def is_symbolic(it):
    return as_seq(it) is not None


def pick(env, names):
    return {k: env[k] for k in names if k in env}


def arrays(x):
    return jax.tree_util.tree_map(lambda v: jnp.asarray(v.__jax_array__() if isinstance(v, Affine) else v), x)


def sym_for(body, it, carried, lists):
    """for target in it: body, for an iterable of symbolic length.  body(target, carried, lists) -> carried."""
    got = {}
    for s in as_seq(it).segs:
        if s[0] == "c":
            for x in s[1]:
                r = dict(carried)
                lists = {k: SymSeq(v.segs) if isinstance(v, SymSeq) else list(v) for k, v in lists.items()}
                r.update(body(x, dict(carried), lists))
                carried = r
                got.update(r, **lists)
        else:
            r = sym_segment(body, s[1], s[2], carried, lists)
            got.update(r)
            carried = {k: r.get(k, v) for k, v in carried.items()}
            lists = {k: r.get(k, v) for k, v in lists.items()}
    return got


def offsets(body, n, f, carried, lists):
    """Loop variables that advance by a fixed size: {name: (start, step)}."""
    box = {}
    names = [k for k, v in carried.items() if static(v)]
    if not names:
        return {}

    def probe(i):
        def once(steps):
            c = {k: Affine(carried[k], steps[k], i) if k in steps else arrays(v) if k not in names else jnp.asarray(v)
                 for k, v in carried.items()}
            ls = {k: Collector(v[-1] if not isinstance(v, SymSeq) and len(v) else None) for k, v in lists.items()}
            new = dict(c)
            new.update(fork_first(lambda: body(f(i), dict(c), ls)))
            out = {}
            for k in steps:
                d = new[k] - c[k] if isinstance(new[k], Affine) else None
                if static(d):
                    out[k] = d
            return out
        steps = {k: 0 for k in names}
        for _ in range(3):
            new = once(steps)
            if new == steps:
                break
            steps = new
        else:
            steps = {}
        box.update(steps)
        return i
    try:
        jax.eval_shape(probe, jax.ShapeDtypeStruct((), jnp.int64))
    except Exception:
        return {}
    return {k: (carried[k], v) for k, v in box.items()}


def sym_segment(body, n, f, carried, lists):
    off = offsets(body, n, f, carried, lists)
    if off:
        body0 = body

        def body(x, c, ls, i=None):
            i = x[0]
            c = dict(c)
            c.update({k: Affine(b, d, i) for k, (b, d) in off.items()})
            out = dict(body0(x[1], c, ls))
            for k, (b, d) in off.items():
                if k in out and not (isinstance(out[k], Affine) and static(out[k] - Affine(b, d, i)) and
                                     out[k] - Affine(b, d, i) == d):
                    raise Unsupported("a running offset advancing unevenly")
                out.pop(k, None)
            return out
        g = f
        r = segment(body, n, lambda i: (i, g(i)), {k: v for k, v in carried.items() if k not in off}, lists)
        return {**r, **{k: b + d * n for k, (b, d) in off.items()}}
    return segment(body, n, f, carried, lists)


def segment(body, n, f, carried, lists):
    if not carried:
        try:
            jax.eval_shape(lambda i: [fork_first(lambda: _one(body, f, i, {}, lists, k)) for k in lists][0:0] or 0,
                           jax.ShapeDtypeStruct((), jnp.int64))
            return {k: _extend(v, SymSeq([("g", n, lambda i, k=k: _one(body, f, i, {}, lists, k))])) for k, v in lists.items()}
        except NeedLast:
            pass
    names = sorted(carried)
    last = {}

    def run(i, c, last):
        ls = {k: Collector(last.get(k)) for k in lists}
        new = dict(c)
        new.update(body(f(i), dict(c), ls))
        return {k: arrays(new[k]) for k in names}, {k: arrays(v.one()) for k, v in ls.items()}

    def go(last):
        init = (arrays({k: carried[k] for k in names}), arrays(last))

        def step(c, i):
            out, ys = fork(lambda: run(i, c[0], c[1]))
            return (out, {k: ys[k] for k in c[1]}), ys
        for _ in range(3):
            av = jax.eval_shape(lambda c: step(c, jnp.asarray(0))[0], init)
            if jax.tree_util.tree_structure(av) != jax.tree_util.tree_structure(init):
                raise Unsupported("a loop of symbolic length changing the structure of its variables")
            init = jax.tree_util.tree_map(lambda x, a: jnp.broadcast_to(x, a.shape).astype(a.dtype), init, av)
        return jax.lax.scan(step, init, jnp.arange(n))
    try:
        (out, _), ys = go({})
    except NeedLast:
        (out, _), ys = go({k: v[-1] for k, v in lists.items() if len(v)})
    r = dict(out)
    for k, v in lists.items():
        r[k] = _extend(v, SymSeq([("g", n, lambda i, k=k: jax.tree_util.tree_map(lambda y: y[i], ys[k]))]))
    return r


def _one(body, f, i, carried, lists, k):
    ls = {q: Collector() for q in lists}
    body(f(i), {}, ls)
    return ls[k].one()


def _extend(old, new):
    if isinstance(old, SymSeq):
        return old + new
    return SymSeq([("c", list(old))] + new.segs) if len(old) else new


_fori = jax.lax.fori_loop


def fori_loop(lower, upper, body_fun, init_val, **kw):
    if isinstance(upper, DIM) or isinstance(lower, DIM):
        init = arrays(init_val)
        return jax.lax.scan(lambda c, i: (arrays(body_fun(i, c)), None), init, jnp.arange(lower, upper))[0]
    return _fori(lower, upper, body_fun, init_val, **kw)


jax.lax.fori_loop = fori_loop

# -------------------------------------------------------------------------- source transformation


def names_of(t):
    """Names of a loop target: a name or a flat tuple of names."""
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
        return [e.id for e in t.elts]
    return None


def params(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def function_of(target, elt):
    names = names_of(target)
    if isinstance(target, ast.Name):
        return ast.Lambda(args=params(names), body=elt)
    inner = ast.Lambda(args=params(names), body=elt)
    call = ast.Call(func=inner, args=[ast.Starred(value=ast.Name(id="__jxv_t", ctx=ast.Load()), ctx=ast.Load())], keywords=[])
    return ast.Lambda(args=params(["__jxv_t"]), body=call)


REFUSED = (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.Delete, ast.Import,
           ast.ImportFrom, ast.NamedExpr, ast.Try, ast.With, ast.While, ast.ClassDef, ast.Match)


def loop_names(body):
    """(names stored, lists appended to) by the statements of a loop body, or None."""
    stored, lists = [], []

    def walk(node, depth):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            if isinstance(node, ast.FunctionDef):
                stored.append(node.name)
            return True
        if isinstance(node, REFUSED):
            return False
        if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return True
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
            stored.append(node.id)
        if isinstance(node, (ast.Attribute, ast.Subscript)) and isinstance(node.ctx, ast.Store):
            return False
        if (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "append"
                and isinstance(node.func.value, ast.Name)):
            lists.append(node.func.value.id)
        return all(walk(c, depth + 1) for c in ast.iter_child_nodes(node))
    if not all(walk(b, 0) for b in body):
        return None
    inner = {x for x in lists if x in stored}
    if not all(set_first(body, x) for x in inner):
        return None
    return sorted(set(stored) - inner), sorted(set(lists) - inner), sorted(inner)


def set_first(body, name):
    """The statements give name a new value before they use it."""
    for b in body:
        if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == name:
            return not any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(b.value))
        if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(b)):
            return False
    return False


class Stale:
    """A list made anew in each iteration of a loop of symbolic length, after the loop."""

    def __getattribute__(self, name):
        raise Unsupported("the last list a loop of symbolic length made")


STALE = Stale()


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_For(self, node):
        import copy
        target = names_of(node.target)
        got = loop_names(node.body)
        self.generic_visit(node)
        if target is None or got is None or node.orelse or not self.depth:
            return node
        stored, lists, inner = [[x for x in y if x not in target] for y in got]
        if set(got[2]) & set(target):
            return node
        if not stored and not lists:
            return node
        self.n += 1
        k = self.n
        text = [f"def __jxv_body_{k}(__jxv_t, __jxv_c, __jxv_l):"]
        text.append(f"    {', '.join(target)}{',' if isinstance(node.target, ast.Tuple) else ''} = __jxv_t")
        for x in stored:
            text.append(f"    if {x!r} in __jxv_c:\n        {x} = __jxv_c[{x!r}]")
        for x in lists:
            text.append(f"    {x} = __jxv_l[{x!r}]")
        text.append(f"    __jxv_here__\n    return __jxv_pick__(locals(), {stored!r})")
        text.append(f"__jxv_i_{k} = __jxv_iter__")
        text.append(f"if __jxv_symbolic__(__jxv_i_{k}):")
        text.append(f"    __jxv_r_{k} = __jxv_for__(__jxv_body_{k}, __jxv_i_{k}, __jxv_pick__(locals(), {stored!r}), "
                    f"__jxv_pick__(locals(), {lists!r}))")
        for x in stored + lists:
            text.append(f"    if {x!r} in __jxv_r_{k}:\n        {x} = __jxv_r_{k}[{x!r}]")
        for x in inner:
            text.append(f"    {x} = __jxv_stale__")
        text.append("else:\n    pass")
        new = ast.parse("\n".join(text)).body
        fn, it, cond = new
        at = next(i for i, b in enumerate(fn.body) if isinstance(b, ast.Expr))
        fn.body[at:at + 1] = copy.deepcopy(node.body)
        it.value = node.iter
        node.iter = ast.Name(id=f"__jxv_i_{k}", ctx=ast.Load())
        cond.orelse = [node]
        return [ast.copy_location(b, node) for b in new]

    def _comp(self, node, name):
        self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.ifs or g.is_async or names_of(g.target) is None:
            return node
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(node.elt)):
            return node
        self.n += 1
        lam = function_of(g.target, node.elt)
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[lam, g.iter], keywords=[]), node)

    def visit_ListComp(self, node):
        return self._comp(node, "__jxv_comp__")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "__jxv_comp_lazy__")

    def visit_ClassDef(self, node):
        return node

    def _disp(self, node, kind):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        self.n += 1
        parts = [ast.Tuple(elts=[ast.Constant("s" if isinstance(e, ast.Starred) else "e"),
                                 e.value if isinstance(e, ast.Starred) else e], ctx=ast.Load()) for e in node.elts]
        return ast.copy_location(ast.Call(func=ast.Name(id="__jxv_display__", ctx=ast.Load()),
                                          args=[ast.Name(id=f"__jxv_{kind}__", ctx=ast.Load())] + parts, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if (isinstance(node.func, ast.Name) and node.func.id in ("list", "tuple") and len(node.args) == 1 and not node.keywords
                and not isinstance(node.args[0], ast.Starred)):
            self.n += 1
            return ast.copy_location(ast.Call(func=ast.Name(id="__jxv_seq__", ctx=ast.Load()), args=[node.func, node.args[0]],
                                              keywords=[]), node)
        if not any(isinstance(e, ast.Starred) for e in node.args):
            return node
        self.n += 1
        parts = [ast.Tuple(elts=[ast.Constant("s" if isinstance(e, ast.Starred) else "e"),
                                 e.value if isinstance(e, ast.Starred) else e], ctx=ast.Load()) for e in node.args]
        kw = ast.Dict(keys=[ast.Constant(k.arg) if k.arg is not None else None for k in node.keywords],
                      values=[k.value for k in node.keywords])
        return ast.copy_location(ast.Call(func=ast.Name(id="__jxv_call__", ctx=ast.Load()), args=[node.func, kw] + parts,
                                          keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mult) and any(isinstance(x, (ast.List, ast.Tuple)) for x in (node.left, node.right)):
            self.n += 1
            return ast.copy_location(ast.Call(func=ast.Name(id="__jxv_times__", ctx=ast.Load()), args=[node.left, node.right],
                                              keywords=[]), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Add) and isinstance(node.target, ast.Name):
            self.n += 1
            return ast.copy_location(ast.Assign(targets=[node.target], value=ast.Call(
                func=ast.Name(id="__jxv_iadd__", ctx=ast.Load()),
                args=[ast.Name(id=node.target.id, ctx=ast.Load()), node.value], keywords=[])), node)
        return node

    def visit_Tuple(self, node):
        return self._disp(node, "tuple")

    def visit_List(self, node):
        return self._disp(node, "list")


def transform(source, path):
    """(code object, number of rewritten comprehensions and displays)."""
    tree = ast.parse(source, path)
    r = Rewrite()
    new = r.visit(tree)
    if r.n:
        ast.fix_missing_locations(new)
    return compile(new, path, "exec", dont_inherit=True), r.n


NAMES = {"__jxv_comp__": comp, "__jxv_comp_lazy__": comp_lazy, "__jxv_display__": display, "__jxv_call__": call, "__jxv_tuple__": tuple,
         "__jxv_list__": list, "__jxv_seq__": seq, "__jxv_for__": sym_for, "__jxv_pick__": pick, "__jxv_symbolic__": is_symbolic, "__jxv_times__": times,
         "__jxv_iadd__": iadd, "__jxv_stale__": STALE}

BUILTINS = {"range": sym_range, "zip": sym_zip, "enumerate": sym_enumerate, "reversed": sym_reversed, "sum": sym_sum, "map": sym_map, "len": sym_len}


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        try:
            code, n = transform(data, path)
        except SyntaxError:
            raise
        except Exception:
            return super().source_to_code(data, path, _optimize=_optimize)
        return code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        vars(module).update(NAMES)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, package):
        self.package = package

    def find_spec(self, name, path=None, target=None):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return None
        loader = Loader(spec.loader.name, spec.loader.path)
        return importlib.util.spec_from_file_location(name, spec.origin, loader=loader,
                                                      submodule_search_locations=spec.submodule_search_locations)


def install(package):
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder(package))
