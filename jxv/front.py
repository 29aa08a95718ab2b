"""
Front end: the real functions of /repo, traced by JAX itself on every run.

User-supplied callables become uninterpreted primitives with exact differentiation, batching and
transposition rules; array sizes and loop lengths may be symbolic.
"""
import contextlib
import importlib
import os
import pkgutil
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
REPO = os.environ.get("JXV_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings

warnings.filterwarnings("ignore")
import numpy as np
import jax

jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from jax import core
from jax.interpreters import ad, batching
from jax.experimental.export import shape_poly

from .terms import Unsupported, LOWER, Lin, dim, bounds as size_bounds
from . import symseq

symseq.install("bayesian_sde_solver")

f64 = jnp.float64


class ReproError(Exception):
    pass


def load_repo():
    """Import every module of the package under verification from REPO; {name: module}."""
    import bayesian_sde_solver
    root = os.path.realpath(os.path.dirname(bayesian_sde_solver.__file__))
    if not root.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"wrong package location {root}")
    mods = {}
    for m in pkgutil.walk_packages(bayesian_sde_solver.__path__, "bayesian_sde_solver."):
        mods[m.name] = importlib.import_module(m.name)
    mods["bayesian_sde_solver"] = bayesian_sde_solver
    return mods


# ------------------------------------------------------------ uninterpreted user functions

uf_p = core.Primitive("jxv_uf")


def _levels(args, mask):
    nl = len(mask[0]) if mask else 0
    sizes = []
    for l in range(nl):
        for a, m in zip(args, mask):
            if m[l]:
                sizes.append(a.shape[sum(m[:l])])
                break
        else:
            raise Unsupported("unbatched level")
    return tuple(sizes)


@uf_p.def_abstract_eval
def _uf_abs(*args, name, oshape, nargs, slots, mask, ct):
    lev = _levels(args, mask)
    if ct is None:
        return core.ShapedArray(lev + tuple(oshape), jnp.dtype("float64"))
    a = args[ct]
    return core.ShapedArray(lev + tuple(a.shape[sum(mask[ct]):]), jnp.dtype("float64"))


@uf_p.def_impl
def _uf_impl(*args, **kw):
    raise Unsupported("uninterpreted function evaluated on concrete values")


def _uf_jvp(primals, tangents, *, name, oshape, nargs, slots, mask, ct):
    primals = list(primals)
    out = uf_p.bind(*primals, name=name, oshape=oshape, nargs=nargs, slots=slots, mask=mask, ct=ct)
    tot = None
    base, tans, cts = primals[:nargs], primals[nargs:nargs + len(slots)], primals[nargs + len(slots):]
    for q, t in enumerate(tangents):
        if type(t) is ad.Zero:
            continue
        if q < nargs:
            if base[q].dtype != jnp.dtype("float64"):
                continue
            ops = base + tans + [t] + cts
            mk = mask[:nargs + len(slots)] + (mask[q],) + mask[nargs + len(slots):]
            r = uf_p.bind(*ops, name=name, oshape=oshape, nargs=nargs, slots=slots + (q,), mask=mk, ct=ct)
        else:
            ops = list(primals)
            ops[q] = t
            r = uf_p.bind(*ops, name=name, oshape=oshape, nargs=nargs, slots=slots, mask=mask, ct=ct)
        tot = r if tot is None else ad.add_tangents(tot, r)
    if tot is None:
        tot = ad.Zero.from_value(out)
    return out, tot


ad.primitive_jvps[uf_p] = _uf_jvp


def _uf_batch(args, dims, *, name, oshape, nargs, slots, mask, ct):
    ops, mk = [], []
    for a, d, m in zip(args, dims, mask):
        if d is batching.not_mapped:
            ops.append(a)
            mk.append((False,) + m)
        else:
            ops.append(batching.moveaxis(a, d, 0))
            mk.append((True,) + m)
    out = uf_p.bind(*ops, name=name, oshape=oshape, nargs=nargs, slots=slots, mask=tuple(mk), ct=ct)
    return out, 0


batching.primitive_batchers[uf_p] = _uf_batch


def _uf_transpose(cot, *args, name, oshape, nargs, slots, mask, ct):
    lin = [q for q, a in enumerate(args) if ad.is_undefined_primal(a)]
    if len(lin) != 1 or type(cot) is ad.Zero:
        if type(cot) is ad.Zero:
            return [ad.Zero(a.aval) if ad.is_undefined_primal(a) else None for a in args]
        raise Unsupported("transpose of a multilinear derivative in several arguments")
    q = lin[0]
    nl = len(mask[0])
    full = (True,) * nl
    res = [None] * len(args)
    if ct is None and q >= nargs:
        k = q - nargs
        ops = [a for j, a in enumerate(args) if j != q] + [cot]
        mk = tuple(m for j, m in enumerate(mask) if j != q) + (full,)
        r = uf_p.bind(*ops, name=name, oshape=oshape, nargs=nargs, slots=slots[:k] + slots[k + 1:], mask=mk,
                      ct=slots[k])
    elif ct is not None and q == nargs + len(slots):
        ops = list(args[:-1]) + [cot]
        mk = tuple(mask[:-1]) + (full,)
        r = uf_p.bind(*ops, name=name, oshape=oshape, nargs=nargs, slots=slots + (ct,), mask=mk, ct=None)
    elif ct is not None and q >= nargs:
        k = q - nargs
        ops = list(args[:q]) + list(args[q + 1:-1]) + [cot, args[-1]]
        mk = tuple(mask[:q]) + tuple(mask[q + 1:-1]) + (full, mask[-1])
        r = uf_p.bind(*ops, name=name, oshape=oshape, nargs=nargs, slots=slots[:k] + slots[k + 1:] + (ct,), mask=mk,
                      ct=slots[k])
    else:
        raise Unsupported("transpose form")
    drop = [l for l in range(nl) if not mask[q][l]]
    if drop:
        r = jnp.sum(r, axis=tuple(drop))
    res[q] = r
    return res


ad.primitive_transposes[uf_p] = _uf_transpose


class UF:
    """An arbitrary smooth user function with a given output shape."""

    def __init__(self, name, oshape):
        self.name, self.oshape = name, tuple(oshape)

    def __call__(self, *args):
        flat, tree = jax.tree_util.tree_flatten(args)
        ops = []
        for a in flat:
            a = jnp.asarray(a)
            if jnp.issubdtype(a.dtype, jnp.integer) and a.dtype not in (jnp.uint32,):
                a = a.astype(f64)
            elif jnp.issubdtype(a.dtype, jnp.floating):
                a = a.astype(f64)
            ops.append(a)
        mask = tuple(() for _ in ops)
        return uf_p.bind(*ops, name=self.name, oshape=self.oshape, nargs=len(ops), slots=(), mask=mask, ct=None)


class RandomFn:
    """A concrete smooth test function with the same interface (used for replay)."""

    def __init__(self, name, oshape, seed, scale=1.0):
        self.name, self.oshape, self.seed, self.scale = name, tuple(int(s) for s in oshape), seed, scale

    def __call__(self, *args):
        flat, _ = jax.tree_util.tree_flatten(args)
        z = []
        for a in flat:
            a = jnp.asarray(a)
            if a.dtype == jnp.uint32:
                a = (a % 1009).astype(f64) / 1009.0
            z.append(jnp.ravel(a).astype(f64))
        z = jnp.concatenate(z) if z else jnp.zeros(0)
        n = z.shape[0]
        rng = np.random.default_rng([self.seed, n] + [ord(c) for c in self.name])
        k = 4
        W = rng.normal(size=(k, n)) / np.sqrt(max(n, 1))
        b = rng.normal(size=k)
        no = int(np.prod(self.oshape)) if self.oshape else 1
        C = rng.normal(size=(no, k))
        c0 = rng.normal(size=no)
        out = self.scale * (C @ jnp.sin(W @ z + b) + c0 + 0.3 * C @ ((W @ z) ** 2))
        return out.reshape(self.oshape)


# ----------------------------------------------------------------------- contract primitives

linspace_p = core.Primitive("jxv_linspace")


@linspace_p.def_abstract_eval
def _ls_abs(a, b, *, num, endpoint):
    return core.ShapedArray((num,), jnp.dtype("float64"))


prepend_p = core.Primitive("jxv_prepend")


@prepend_p.def_abstract_eval
def _pp_abs(x, y, *, axis, pos):
    sh = list(x.shape)
    sh[axis] = sh[axis] + 1
    return core.ShapedArray(tuple(sh), x.dtype)


gram_p = core.Primitive("jxv_gram")


@gram_p.def_abstract_eval
def _gr_abs(x):
    return core.ShapedArray((x.shape[0], x.shape[0]), jnp.dtype("float64"))


def gram(x):
    """x x^T; inside a contract the square of a factor is the matrix it factors."""
    return gram_p.bind(x) if isinstance(x, core.Tracer) and STUBBED["on"] else x @ x.T


STUBBED = {"on": False}
opaque_p = core.Primitive("jxv_opaque")
opaque_p.multiple_results = True


@opaque_p.def_abstract_eval
def _op_abs(*args, name, static, oshapes, sym):
    return [core.ShapedArray(s, jnp.dtype("float64")) for s in oshapes]


def opaque(name, args, oshapes, sym=None, static=()):
    args = [jnp.asarray(a) for a in args]
    sym = tuple(sym) if sym is not None else (False,) * len(oshapes)
    return opaque_p.bind(*args, name=name, static=static, oshapes=tuple(tuple(s) for s in oshapes), sym=sym)


_orig_linspace = jnp.linspace
_orig_insert = jnp.insert


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    symbolic = not isinstance(num, (int, np.integer))
    if not symbolic and num <= 16 or retstep or axis != 0 or jnp.ndim(start) or jnp.ndim(stop):
        return _orig_linspace(start, stop, num, endpoint, retstep, dtype, axis)
    return linspace_p.bind(jnp.asarray(start, f64), jnp.asarray(stop, f64), num=num, endpoint=bool(endpoint))


def _insert(arr, obj, values, axis=None):
    arr = jnp.asarray(arr)
    if axis is not None and arr.ndim and isinstance(obj, int) and not isinstance(arr, np.ndarray):
        ax = axis % arr.ndim
        n = arr.shape[ax]
        values = jnp.asarray(values, dtype=arr.dtype)
        if values.ndim <= arr.ndim - 1:
            pos = obj if obj >= 0 else n + 1 + obj
            if obj < 0:
                pos = n + obj
            rest = arr.shape[:ax] + arr.shape[ax + 1:]
            values = jnp.broadcast_to(values, rest)
            return prepend_p.bind(arr, values, axis=ax, pos=pos)
    if axis is not None and arr.ndim and isinstance(obj, shape_poly._DimExpr):
        ax = axis % arr.ndim
        values = jnp.asarray(values, dtype=arr.dtype)
        if values.ndim <= arr.ndim - 1:
            values = jnp.broadcast_to(values, arr.shape[:ax] + arr.shape[ax + 1:])
            return jax.lax.concatenate([jax.lax.slice_in_dim(arr, 0, obj, axis=ax), jnp.expand_dims(values, ax),
                                        jax.lax.slice_in_dim(arr, obj, arr.shape[ax], axis=ax)], ax)
    return _orig_insert(arr, obj, values, axis)


# ----------------------------------------------------------------------------------- patches


class DimRatio:
    """n * d / n of a symbolic size: stays exact until int() or arithmetic asks for it."""

    def __init__(self, q, raw):
        self.q, self.raw = q, raw

    def __jax_array__(self):
        return self.raw()

    def __getattr__(self, name):
        return getattr(self.raw(), name)


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "neg"):
    setattr(DimRatio, f"__{_n}__", lambda self, *a, _n=_n: getattr(self.raw(), f"__{_n}__")(*a))


def dim_int(x=0, *a):
    """int() as the traced code sees it: exact on ratios of symbolic sizes."""
    if isinstance(x, DimRatio):
        return x.q
    if isinstance(x, shape_poly._DimExpr):
        return x
    return int(x, *a)


def _install_truediv():
    cls = shape_poly._DimExpr
    orig = cls.__truediv__

    def div(self, o):
        f = sys._getframe(1).f_code.co_filename
        if isinstance(o, (int, np.integer, cls)) and f.startswith(os.path.realpath(REPO) + os.sep):
            try:
                q, r = divmod(self, o)
            except Exception:
                q, r = None, 1
            if isinstance(r, int) and r == 0:
                return DimRatio(q, lambda: orig(self, o))
        return orig(self, o)
    cls.__truediv__ = div


_install_truediv()


def _install_lower_bounds():
    """Sizes with a lower bound above 1 (terms.LOWER)."""
    cls = shape_poly._DimAtom
    orig = cls.bounds

    def bounds(self):
        if self.var in LOWER:
            return LOWER[self.var], float("inf")
        return orig(self)
    cls.bounds = bounds

    expr = shape_poly._DimExpr
    orig_expr = expr.bounds

    def expr_bounds(self):
        """The library bounds each monomial alone; combinations like d*s - s are bounded together."""
        lo, hi = orig_expr(self)
        if lo == -float("inf") or hi == float("inf"):
            total = Lin()
            for m, c in self.monomials():
                if any(e != 1 or a.var is None for a, e in m.items()):
                    return lo, hi
                total = total + (dim("*".join(a.var for a, _ in m.items())) * int(c) if m.degree else Lin.of(int(c)))
            a, b = size_bounds(total)
            lo, hi = lo if a is None else max(lo, a), hi if b is None else min(hi, b)
        return lo, hi
    expr.bounds = expr_bounds


_install_lower_bounds()


_orig_scan = jax.lax.scan


def _scan(f, init, xs=None, length=None, *args, **kw):
    """lax.scan: a symbolic length equal to the leading axis of xs says nothing new."""
    if length is not None and not isinstance(length, int):
        leads = [np.shape(x)[:1] for x in jax.tree_util.tree_leaves(xs)]
        if leads and all(len(l) == 1 and str(l[0]) == str(length) for l in leads):
            length = None
    return _orig_scan(f, init, xs, length, *args, **kw)


@contextlib.contextmanager
def patched(pairs, mods):
    """Replace function objects (by identity) in every module namespace of the package."""
    saved = []
    import math
    for orig, new in list(pairs) + [(math.factorial, symseq.sym_factorial), (math.comb, symseq.sym_comb)]:
        for m in mods.values():
            for k, v in list(vars(m).items()):
                if v is orig:
                    saved.append((m, k, v))
                    setattr(m, k, new)
    jnp.linspace, jnp.insert, jax.lax.scan = _linspace, _insert, _scan
    builtin = [(m, k, v) for m in mods.values() for k, v in [("int", dim_int), *symseq.BUILTINS.items()]
               if k not in vars(m)]
    for m, k, v in builtin:
        setattr(m, k, v)
    lists = symseq.patches()
    for k, v in lists.items():
        setattr(jnp, k, v)
    STUBBED["on"] = True
    try:
        yield
    finally:
        jnp.linspace, jnp.insert, jax.lax.scan = _orig_linspace, _orig_insert, _orig_scan
        for m, k, _ in builtin:
            delattr(m, k)
        for k, v in lists.items():
            setattr(jnp, k, v.orig)
        STUBBED["on"] = False
        for m, k, v in reversed(saved):
            setattr(m, k, v)


def identity_progress_bar(num_samples=None, message=None):
    return lambda f: f


DIM_BRANCH = []


def sym_dims(names, constraints=None):
    return shape_poly.symbolic_shape(", ".join(names))


def trace(fn, avals, mods=None, stubs=()):
    """ClosedJaxpr and output tree of fn on abstract values."""
    mods = mods or {}
    with patched(list(stubs), mods):
        jaxpr, out = jax.make_jaxpr(fn, return_shape=True)(*avals)
    leaves, tree = jax.tree_util.tree_flatten(out)
    return jaxpr, tree


def sds(shape, dtype=f64):
    return jax.ShapeDtypeStruct(tuple(shape), dtype)


def _install_jax_shims():
    """jacfwd/jacrev of a single-leaf argument split nothing: allow it for symbolic sizes."""
    from jax._src import api
    orig = api._split

    def split(x, indices, axis):
        if len(indices) == 0:
            return [x]
        return orig(x, indices, axis)
    api._split = split

    from jax._src.numpy import lax_numpy
    orig_split = lax_numpy._split

    def np_split(op, ary, where, axis=0):
        """jnp.split at symbolic positions."""
        if isinstance(where, np.ndarray) and where.dtype == object:
            where = list(where)
        if not isinstance(where, (tuple, list)) or not any(isinstance(w, shape_poly._DimExpr) for w in where):
            return orig_split(op, ary, where, axis)
        ary = jnp.asarray(ary)
        cuts = [0, *where, ary.shape[axis]]
        try:
            ordered = all(bool(b >= a) for a, b in zip(cuts, cuts[1:]))
        except Exception:
            ordered = False
        if not ordered:
            raise Unsupported("split at positions of unknown order")
        return [jax.lax.slice_in_dim(ary, a, b, axis=axis) for a, b in zip(cuts, cuts[1:])]
    lax_numpy._split = np_split

    from jax._src.third_party.numpy import linalg as la
    orig_order = la._multi_dot_matrix_chain_order

    def chain_order(arrays, *a, **k):
        """Order of a chain of products: any order gives the same value."""
        if all(isinstance(n, int) for x in arrays for n in x.shape):
            return orig_order(arrays, *a, **k)
        n = len(arrays)
        s = np.empty((n, n), dtype=int)
        for i in range(n):
            for j in range(n):
                s[i, j] = j - 1
        return s
    la._multi_dot_matrix_chain_order = chain_order

    orig_three = la._multi_dot_three

    def three(a, b, c, precision):
        if all(isinstance(n, int) for x in (a, b, c) for n in x.shape):
            return orig_three(a, b, c, precision)
        return jnp.dot(jnp.dot(a, b, precision=precision), c, precision=precision)
    la._multi_dot_three = three


_install_jax_shims()


def _install_strides():
    """x[a::n] for a symbolic n dividing the length of x: column a of x as a matrix with rows of length n."""
    orig = core.ShapedArray._getitem
    cls = shape_poly._DimExpr

    def sym(i):
        return isinstance(i, slice) and isinstance(i.step, cls)

    def split(x, ax, s):
        """x with axis ax as a matrix, its column a, and whether 0 <= a < n is known."""
        L, n = x.shape[ax], s.step
        a = 0 if s.start is None else s.start
        if s.stop is not None or isinstance(a, int) and a < 0:
            raise Unsupported("slice with a symbolic step")
        try:
            q, r = divmod(L, n)
        except Exception:
            raise Unsupported("slice with a symbolic step")
        try:
            inside = isinstance(a, int) and bool(a + 1 <= n)
        except Exception:
            inside = False
        if not (isinstance(r, int) and r == 0):
            raise Unsupported("slice with a symbolic step that does not divide the length")
        return x.reshape(x.shape[:ax] + (q, n) + x.shape[ax + 1:]), a, inside or ((a >= 0) & (a < n))

    def plain_slice(i):
        if isinstance(i, symseq.Affine):
            return i.__jax_array__()
        if isinstance(i, slice) and isinstance(i.start, symseq.Affine):
            return slice(i.start.__jax_array__(), i.stop, i.step)
        return i

    def stride(x, ax, s):
        y, a, inside = split(x, ax, s)
        r = jax.lax.dynamic_index_in_dim(y, a, ax + 1, keepdims=False) if not isinstance(a, int) else \
            jax.lax.index_in_dim(y, a, ax + 1, keepdims=False)
        return r if inside is True else jnp.where(inside, r, jnp.nan)

    def moving(i):
        return isinstance(i, slice) and (i.step is None or isinstance(i.step, int) and i.step == 1) and \
            (isinstance(i.start, symseq.Affine) or isinstance(i.stop, symseq.Affine))

    def window(x, t):
        """(starts, sizes, whether inside) of x[lo:hi, ...] with running offsets."""
        starts, sizes, inside = [], [], True
        for ax in range(x.ndim):
            i = t[ax] if ax < len(t) else slice(None)
            if isinstance(i, symseq.Affine):
                i = slice(i, i + 1)
            if not isinstance(i, slice) or i.step is not None and i.step != 1:
                raise Unsupported("slice with a running offset among other indices")
            lo = 0 if i.start is None else i.start
            hi = x.shape[ax] if i.stop is None else i.stop
            n = hi - lo
            if not symseq.static(n):
                raise Unsupported("slice of a size that varies in the loop")
            if symseq.static(lo) and not (lo >= 0 and hi >= 0):
                raise Unsupported("slice from the end")
            starts.append(jnp.asarray(lo.__jax_array__() if isinstance(lo, symseq.Affine) else lo))
            sizes.append(n)
            inside = inside & (starts[-1] >= 0) & (starts[-1] + n <= x.shape[ax])
        return starts, sizes, inside

    def kept(t, x):
        return [ax for ax in range(x.ndim) if not (ax < len(t) and isinstance(t[ax], symseq.Affine))]

    class WindowRef:
        """x.at[lo:hi, ...] with running offsets."""

        def __init__(self, x, idx):
            self.x, self.idx = x, idx

        def get(self, **k):
            return getitem(self.x, self.idx)

        def apply_op(self, op, values):
            starts, sizes, inside = window(self.x, self.idx)
            keep = kept(self.idx, self.x)
            v = jnp.broadcast_to(jnp.asarray(values), [sizes[a] for a in keep]).astype(self.x.dtype).reshape(sizes)
            if op != "set":
                old = jax.lax.dynamic_slice(self.x, starts, sizes)
                v = {"add": lambda: old + v, "multiply": lambda: old * v, "divide": lambda: old / v}[op]()
            return jnp.where(inside, jax.lax.dynamic_update_slice(self.x, v, starts), jnp.nan)

    def getitem(self, idx):
        t = idx if isinstance(idx, tuple) else (idx,)
        if any(moving(i) for i in t):
            starts, sizes, inside = window(self, t)
            y = self
            for ax, (lo, n) in enumerate(zip(starts, sizes)):
                if ax < len(t) and t[ax] != slice(None):
                    y = jnp.take(y, lo + jnp.arange(n), axis=ax, mode="clip")
            return jnp.where(inside, y.reshape([sizes[a] for a in kept(t, self)]), jnp.nan)
        if any(isinstance(i, symseq.Affine) for i in t):
            t = tuple(i.__jax_array__() if isinstance(i, symseq.Affine) else i for i in t)
            idx = t if isinstance(idx, tuple) else t[0]
        if any(sym(i) for i in t):
            if not all(sym(i) or isinstance(i, slice) for i in t):
                raise Unsupported("slice with a symbolic step among other indices")
            x = self
            for ax, i in enumerate(t):
                if sym(i):
                    x = stride(x, ax, i)
            rest = tuple(slice(None) if sym(i) else i for i in t)
            return x if all(i == slice(None) for i in rest) else orig(x, rest)
        return orig(self, idx)
    core.ShapedArray._getitem = staticmethod(getitem)

    from jax._src.numpy import array_methods
    helper = array_methods._IndexUpdateHelper
    orig_at = helper.__getitem__

    class StrideRef:
        """x.at[..., a::n, ...] for a symbolic n."""

        def __init__(self, x, idx):
            self.x, self.idx = x, idx

        def get(self, **k):
            return getitem(self.x, self.idx)

        def apply_op(self, op, values):
            if sum(map(sym, self.idx)) != 1 or not all(sym(i) or i == slice(None) for i in self.idx):
                raise Unsupported("update of a slice with a symbolic step among other indices")
            ax = [sym(i) for i in self.idx].index(True)
            y, a, inside = split(self.x, ax, self.idx[ax])
            new = getattr(y.at[(slice(None),) * (ax + 1) + (a,)], op)(values)
            new = new.reshape(self.x.shape)
            return new if inside is True else jnp.where(inside, new, jnp.nan)

    for op in ("set", "add", "multiply", "divide"):
        for c in (StrideRef, WindowRef):
            setattr(c, op, lambda self, values, op=op, **k: self.apply_op(op, values))

    def at(self, idx):
        t = idx if isinstance(idx, tuple) else (idx,)
        if any(moving(i) for i in t):
            return WindowRef(self.array, t)
        t = tuple(plain_slice(i) for i in t)
        idx = t if isinstance(idx, tuple) else t[0]
        return StrideRef(self.array, t) if any(sym(i) for i in t) else orig_at(self, idx)
    helper.__getitem__ = at


_install_strides()
