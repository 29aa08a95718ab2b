"""Exact moments of terms that are polynomial in independent standard normal draws."""
from .terms import *
from .terms import _fresh
from . import terms as TT
from .arr import *
from . import interp as I


def key_equal(a, b):
    """Term [key a == key b]; distinct derivation paths are distinct keys (splitting is injective)."""
    if a == b:
        return UNIT
    if a[0] != b[0]:
        return ZERO if a[0] in ("root", "split", "fold", "seed") and b[0] in ("root", "split", "fold", "seed") else None
    if a[0] == "root":
        if a[1] != b[1]:
            return ZERO
        t = UNIT
        for x, y in zip(a[2], b[2]):
            t = t * iv_eq(x - y)
        return t
    if a[0] == "split":
        e = key_equal(a[1], b[1])
        if e is None:
            return None
        if not e.m:
            return ZERO
        if a[2] != b[2]:
            # children of one key under different split shapes may coincide: undecided
            return None
        for x, y in zip(a[3], b[3]):
            e = e * iv_eq(x - y)
        return e
    if a[0] == "fold":
        e = key_equal(a[1], b[1])
        if e is None or not e.m:
            return e
        return e * t_cmp("eq", a[2] - b[2])
    return None


def draw_cov(a, b):
    """Covariance of two draws (atoms 'rnd')."""
    ka, ia = a.data[1], a.data[3]
    kb, ib = b.data[1], b.data[3]
    if a.data[0] == "normal" and b.data[0] == "normal":
        e = key_equal(ka, kb)
        if e is None:
            raise Unsupported("keys not comparable")
        if not e.m:
            return ZERO
        if a.data[2] != b.data[2]:
            raise Unsupported("same key drawn with two shapes")
        for x, y in zip(ia, ib):
            e = e * iv_eq(x - y)
        return e
    if a.data[0] == "mvn" and b.data[0] == "mvn":
        e = key_equal(ka[0], kb[0])
        if e is None:
            raise Unsupported("keys not comparable")
        if not e.m:
            return ZERO
        if ka[1] != kb[1]:
            raise Unsupported("same key drawn with two covariances")
        for x, y in zip(ia[:-1], ib[:-1]):
            e = e * iv_eq(x - y)
        return e * thaw(ka[1], ia[-1], ib[-1])
    k1 = ka if a.data[0] == "normal" else ka[0]
    k2 = kb if b.data[0] == "normal" else kb[0]
    if a.data[0] in ("normal", "mvn") and b.data[0] in ("normal", "mvn"):
        e = key_equal(k1, k2)
        if e is not None and not e.m:
            return ZERO
    raise Unsupported("draws not comparable")


def thaw(fr, i, j):
    """Element (i, j) of a frozen matrix."""
    if fr[0] != "arr":
        raise Unsupported("thaw")
    shape, items = fr[1], fr[2]
    if all(isinstance(s, int) for s in shape):
        cols = shape[1]
        return I.pickmat([[items[r * cols + c] for c in range(cols)] for r in range(shape[0])], i, j)
    axes = fr[3]
    out = ZERO
    n = 0
    for o1, s1, e1 in axes[0]:
        for o2, s2, e2 in axes[1]:
            it = items[n]
            n += 1
            g, loc = UNIT, []
            for v, o, st, e in ((i, o1, s1, e1), (j, o2, s2, e2)):
                if e is None:
                    g = g * iv_eq(v - o)
                elif isinstance(e, tuple):
                    loc += I.sdivmod(v, st)
                elif st == 1:
                    g = g * iv_ge(v - o) * iv_ge(o + e - 1 - v)
                    loc.append(v - o)
                else:
                    base = o - (o.k % st)
                    q, r = idivmod(v - base, st)
                    if r != Lin.of(o.k % st):
                        g = ZERO
                    else:
                        g = g * iv_ge(q) * iv_ge(e - 1 - q)
                    loc.append(q)
                if not g.m:
                    break
            if not g.m:
                continue
            if isinstance(it, T):
                out = out + g * it
                continue
            _, vs, body = it
            out = out + g * body.subst(dict(zip(vs, loc)))
    return out


def wick(draws):
    if not draws:
        return UNIT
    if len(draws) % 2:
        return ZERO
    a, rest = draws[0], draws[1:]
    out = ZERO
    for k in range(len(rest)):
        c = draw_cov(a, rest[k])
        if c.m:
            out = out + c * wick(rest[:k] + rest[k + 1:])
    return out


def expect(t, kinds=("normal", "mvn")):
    """E[t] over all normal draws, other atoms held fixed."""
    out = ZERO
    for (bv, fs), c in t.m.items():
        draws = []
        rest = []
        for a, e in fs:
            if a.kind == "rnd":
                if a.data[0] not in kinds:
                    raise Unsupported(f"draw kind {a.data[0]}")
                if isinstance(e, Fraction) and e.denominator != 1 or e < 0:
                    raise Unsupported("non-polynomial in a draw")
                draws += [a] * int(e)
            else:
                if contains_rnd(a):
                    raise Unsupported("draw inside a nonlinear function")
                rest.append((a, e))
        if not draws:
            out = out + T({(bv, fs): c})
            continue
        if len(draws) > 8:
            raise Budget("moment order")
        if len(draws) % 2:
            continue
        ren, fresh = TT._unbind(bv)
        da = []
        for a in draws:
            q = T._of_atom(a).subst(ren) if ren else T._of_atom(a)
            ((_, ((x, _),)), _), = q.m.items()
            da.append(x)
        r = wick(da)
        if r.m and rest:
            r = r * rebuild_mono((), tuple(rest), ren)
        for w in fresh:
            r = bsum(r, w)
        out = out + r.scale(c)
    return out


_cr = {}


def contains_rnd(a):
    r = _cr.get(a)
    if r is None:
        r = _cr[a] = _scan_rnd(a.data)
    return r


def _scan_rnd(d):
    if isinstance(d, tuple):
        return any(_scan_rnd(x) for x in d)
    if isinstance(d, T):
        for bv, fs in d.m:
            for a, _ in fs:
                if a.kind == "rnd" or contains_rnd(a):
                    return True
    return False


def degree_in_draws(t):
    return max([sum(e for a, e in fs if a.kind == "rnd") for bv, fs in t.m] or [0])


def draws_of(t):
    return sorted({a for k in t.m for a, _ in k[1] if a.kind == "rnd"}, key=lambda a: a.id)


def _is_factor(a):
    return a.kind == "fn" and isinstance(a.data[0], tuple) and a.data[0][1] in ("sqrtm", "chol")


def strip_tri(t):
    """[i >= k] L(i, k) = L(i, k) and [k > i] L(i, k) = 0 for lower triangular L."""
    out, ch = ZERO, False
    for (bv, fs), c in t.m.items():
        low = [a.data[2] for a, _ in fs if _is_factor(a) and a.data[0][0] == "L"]
        keep, zero = [], False
        for a, e in fs:
            if low and a.kind == "iv" and a.data[0] == "ge":
                d = [(a.data[1] - (i - k), a.data[1] - (k - i)) for i, k in low]
                if any(x.is_const() and x.k >= 0 for x, _ in d):
                    continue
                if any(y.is_const() and y.k < 0 for _, y in d):
                    zero = True
                    break
            keep.append((a, e))
        if zero:
            ch = True
            continue
        keep = tuple(keep)
        if len(keep) != len(fs):
            ch = True
        out = out + T({(bv, keep): c})
    return out if ch else t


def gram_rewrite(t):
    """Use S S^T = P for square-root factors (sqrtm, chol, qr) appearing in products."""
    for _ in range(400):
        t = strip_tri(t)
        new = _gram_once(t)
        if new is None:
            return t
        t = new
    return t


def _gram_once(t):
    for (bv, fs), c in t.m.items():
        for x, e in fs:
            if _is_factor(x) and abs(e) >= 2 and all(i == Lin() for i in x.data[2]) and (x.data[0][0] == "L" or x.data[1][0][1][0] == 1):
                # the leading entry of a triangular factor is the square root of that of the product
                s = 1 if e > 0 else -1
                rest = tuple((a, f - 2 * s) if a is x else (a, f) for a, f in fs if a is not x or f != 2 * s)
                r = _close(bv, None, rest, lambda ren: power(thaw(x.data[1][0], Lin(), Lin()), s))
                return t - T({(bv, fs): c}) + r.scale(c)
        invs = [a for a, e in fs if _is_inv(a) and e == 1]
        for x in invs:
            r = _inv_row(bv, fs, x)
            if r is not None:
                return t - T({(bv, fs): c}) + r.scale(c)
        roots = [(a, e) for a, e in fs if _is_factor(a)]
        if not roots:
            continue
        flat = []
        for a, e in roots:
            if e != int(e) or e < 0:
                flat = []
                break
            flat += [a] * int(e)
        for p in range(len(flat)):
            for q in range(p):
                x, y = flat[q], flat[p]
                if x.data[0] != y.data[0] or x.data[1] != y.data[1]:
                    continue
                r = _gram_pair(bv, fs, x, y)
                if r is not None:
                    return t - T({(bv, fs): c}) + r.scale(c)
        for x in flat:
            r = _inv_pair(bv, fs, x)
            if r is not None:
                return t - T({(bv, fs): c}) + r.scale(c)
    return None


def _is_inv(a):
    return a.kind == "fn" and isinstance(a.data[0], tuple) and a.data[0][1] == "inv"


def _free_in(v, bv, rest):
    return any(v in a.fv for a, _ in rest) or any(v in w.ext.vars() for w in bv)


_lead_atom = {}


def _leading_atom(fz):
    """A term of the generic element (i, j) of a frozen matrix that is a single symbolic matrix entry M(i, j)
    (or M(j, i)), and the element without it: (build, rest) or None."""
    if fz in _lead_atom:
        return _lead_atom[fz]
    out = None
    if fz[0] == "arr" and not all(isinstance(s, int) for s in fz[1]):
        n = Lin.of(fz[1][0])
        i, j = I.ix(n), I.ix(n)
        try:
            t = thaw(fz, i, j)
        except Unsupported:
            t = ZERO
        for (bv, fs), c in t.m.items():
            if not bv and len(fs) == 1 and fs[0][1] == 1 and fs[0][0].kind != "iv" and fs[0][0].fv >= set(i.vars()) | set(j.vars()):
                out = (fs[0][0], c, i, j, t - T({(bv, fs): c}))
                break
    _lead_atom[fz] = out
    return out


def _inv_row(bv, fs, x):
    """Sum_k X(a,k) X(b,k)-type contractions of inverses:
    L^-T L^-1 = (L L^T)^-1 for a Cholesky factor L;  Sum_k S^-1(a,k) S(k,c) = [a = c]."""
    fz = x.data[1][0]
    P = I.CHOLINV.get(fz)
    if P is not None:
        k, i = x.data[2]
        for y, e in fs:
            if not _is_inv(y) or y.data[0] != x.data[0] or y.data[1] != x.data[1] or y.data[2][0] != k:
                continue
            if y is x and e < 2:
                continue
            vs = [v for v in k.vars() if v in bv]
            if len(vs) != 1 or k != Lin.of(vs[0]) or vs[0].ext != P.shape[0]:
                continue
            v, j = vs[0], y.data[2][1]
            rest = _without(fs, x, y)
            if _free_in(v, bv, rest) or v in i.vars() or v in j.vars():
                continue
            inv = I.inverse_fn(P)
            return _close(bv, v, rest, lambda ren: inv(i.subst(ren), j.subst(ren)))
        return None
    la = _leading_atom(fz)
    if la is None:
        return None
    at, coef, gi, gj, others = la
    n = Lin.of(fz[1][0])
    symm = x.data[0][0] == "S"
    pres = [x.data[2]] + ([x.data[2][::-1]] if symm else [])
    for a, k in pres:
        vs = [v for v in k.vars() if v in bv]
        if len(vs) != 1 or k != Lin.of(vs[0]) or vs[0].ext != n or vs[0] in a.vars():
            continue
        v = vs[0]
        # the entry M(k, c) for some index c: match by substitution
        for y, e in fs:
            if e != 1 or y is x or y.kind != at.kind or v not in y.fv:
                continue
            rest = _without(fs, x, y)
            if _free_in(v, bv, rest):
                continue
            for c in _index_candidates(y, v):
                if v in c.vars():
                    continue
                got = T._of_atom(at).subst({gi.vars()[0]: k, gj.vars()[0]: c})
                if got.m != T._of_atom(y).m:
                    if not symm:
                        continue
                    got = T._of_atom(at).subst({gj.vars()[0]: k, gi.vars()[0]: c})
                    if got.m != T._of_atom(y).m:
                        continue
                inv = REBUILD["fn"]

                def f(ren):
                    aa, cc = a.subst(ren), c.subst(ren)
                    s = esum(n, lambda q: inv((x.data[0], x.data[1], (aa, q)))
                             * others.subst({gi.vars()[0]: q, gj.vars()[0]: cc}))
                    return (iv_eq(aa - cc) - s).scale(1 / coef)
                return _close(bv, v, rest, f)
    return None


def _index_candidates(y, v):
    out = []

    def walk(d):
        if isinstance(d, Lin):
            if d not in out:
                out.append(d)
        elif isinstance(d, tuple):
            for q in d:
                walk(q)
    walk(y.data)
    return out


def _orient(a):
    """(row, col) presentations of a factor element."""
    i, j = a.data[2]
    out = [(i, j)]
    if a.data[0][0] == "S":
        out.append((j, i))
    return out


def _nonneg(l):
    lo = lmin(l)
    return lo is not None and lo >= 0


def _without(fs, *xs):
    rest = list(fs)
    for z in xs:
        for n, (a, e) in enumerate(rest):
            if a is z:
                if e == 1:
                    rest.pop(n)
                else:
                    rest[n] = (a, e - 1)
                break
    return tuple(rest)


def _is_pair(k, v, w, n):
    try:
        return k == Lin.of(v) * w.ext + Lin.of(w) and v.ext * w.ext == n
    except Unsupported:
        return False


def _close(bv, v, rest, f):
    """Re-bind the other bound variables around rest * f(ren)."""
    nb = tuple(w for w in bv if w is not v and not (isinstance(v, tuple) and w in v))
    ren, fresh = TT._unbind(nb)
    r = (rebuild_mono((), rest, ren) if rest else UNIT) * f(ren)
    for w in fresh:
        r = bsum(r, w)
    return r


def _leading(P, e):
    """The leading e x e block of the Gram matrix of a factor, as an array."""
    return Arr((e, e), lambda i, j: thaw(P, i, j))


def _block_inverse(P, e):
    inv = I.inverse_fn(_leading(P, e))
    return inv


def _schur(P, e, a, b):
    """Sum_{k,l<e} P(a,k) Sinv(k,l) P(b,l)."""
    inv = _block_inverse(P, e)
    return esum(e, lambda k: esum(e, lambda l: thaw(P, a, k) * inv(k, l) * thaw(P, b, l)))


def _gram_pair(bv, fs, x, y):
    P = x.data[1][0]
    low = x.data[0][0] == "L"
    N = Lin.of(P[1][0])
    for (i, k1) in _orient(x):
        for (j, k2) in _orient(y):
            if k1 != k2:
                continue
            rest = _without(fs, x, y)
            vs = [v for v in k1.vars() if v in bv]
            if len(vs) == 2:
                # the contraction written as a double sum over k = v*w.ext + w
                for v, w in (vs, vs[::-1]):
                    if (_is_pair(k1, v, w, N)
                            and not any(q in a.fv for a, _ in rest for q in vs) and not any(q in i.vars() + j.vars() for q in vs)
                            and not any(q in u.ext.vars() for u in bv for q in vs)):
                        return _close(bv, (v, w), rest, lambda ren: thaw(P, i.subst(ren), j.subst(ren)))
                continue
            if len(vs) == 1 and dict(k1.c).get(vs[0], 0) > 1 and k1 == Lin.of(vs[0]) * dict(k1.c)[vs[0]]:
                # one residue class of a full contraction: all of it minus the other classes
                v, s = vs[0], dict(k1.c)[vs[0]]
                if (v.ext * s == N and not any(v in a.fv for a, _ in rest) and v not in i.vars() and v not in j.vars()
                        and not any(v in w.ext.vars() for w in bv)):
                    def full(ren):
                        ii, jj = i.subst(ren), j.subst(ren)
                        r = thaw(P, ii, jj)
                        for q in range(1, s):
                            r = r - esum(v.ext, lambda k: _el(x, ii, k * s + q) * _el(y, jj, k * s + q))
                        return r
                    return _close(bv, v, rest, full)
                continue
            if len(vs) == 1 and dict(k1.c).get(vs[0]) == 1 and vs[0] not in k1.prods():
                v = vs[0]
                if any(v in a.fv for a, _ in rest) or v in i.vars() or v in j.vars():
                    continue
                if any(v in w.ext.vars() for w in bv):
                    continue
                off = k1 - Lin.of(v)
                e = v.ext
                if off == Lin() and (e == N or low and (_nonneg(e - 1 - i) or _nonneg(e - 1 - j))):
                    return _close(bv, v, rest, lambda ren: thaw(P, i.subst(ren), j.subst(ren)))
                if low and off == Lin() and _nonneg(i - e) and _nonneg(j - e):
                    return _close(bv, v, rest, lambda ren: _schur(P, e, i.subst(ren), j.subst(ren)))
                if low and off + e == N and _nonneg(i - off) and _nonneg(j - off) and not off.is_const():
                    return _close(bv, v, rest, lambda ren: thaw(P, i.subst(ren), j.subst(ren))
                                  - _schur(P, off, i.subst(ren), j.subst(ren)))
                continue
            if k1 == Lin.of(0) and isinstance(P[1][0], int) and not bv:
                n = P[1][0]
                r = thaw(P, i, j)
                for q in range(1, n):
                    r = r - _el(x, i, q) * _el(x, j, q)
                return r * (T({((), tuple(sorted(rest, key=lambda z: z[0].id))): F1}) if rest else UNIT)
    return None


_lead_cache = {}


def _inv_pair(bv, fs, x):
    """Sum_{q<e} L(a,q) Iinv(q,j) = Sum_{k<e} P(a,k) Sinv(k,j), I the leading e-block of L, a >= e."""
    if x.data[0][0] != "L":
        return None
    P = x.data[1][0]
    i, k1 = x.data[2]
    vs = [v for v in k1.vars() if v in bv]
    if len(vs) != 1 or k1 != Lin.of(vs[0]):
        return None
    v = vs[0]
    e = v.ext
    if not _nonneg(i - e):
        return None
    for a, ex in fs:
        if a.kind != "fn" or not isinstance(a.data[0], tuple) or a.data[0][1] != "inv" or ex != 1:
            continue
        q, j = a.data[2]
        if q != k1:
            continue
        key = (x.data[0], x.data[1], e)
        fz = _lead_cache.get(key)
        if fz is None:
            L = Arr((e, e), lambda r, c: iv_ge(r - c) * REBUILD["fn"]((x.data[0], x.data[1], (r, c))))
            L2 = Arr((e, e), lambda r, c: REBUILD["fn"]((x.data[0], x.data[1], (r, c))))
            fz = _lead_cache[key] = (freeze(L), freeze(L2))
        if a.data[1][0] not in fz:
            continue
        rest = _without(fs, x, a)
        if any(v in b.fv for b, _ in rest) or v in j.vars() or v in i.vars():
            continue

        def f(ren):
            inv = _block_inverse(P, e)
            ii, jj = i.subst(ren), j.subst(ren)
            return esum(e, lambda k: thaw(P, ii, k) * inv(k, jj))
        return _close(bv, v, rest, f)
    return None


_units = {}


def _unit_row(P, x):
    """Row x of a frozen symmetric matrix is a unit vector: so are row and column x of its Cholesky factor."""
    r = _units.get((P, x))
    if r is None:
        r = _units[P, x] = False
        A = Arr(tuple(Lin.of(s) for s in P[1]), lambda i, j: thaw(P, i, j))
        try:
            if not A.shape[0].is_const() and all(
                    TT.is_zero(A(x, y) - iv_eq(x - y))
                    for y in cover(A, 1)):
                r = _units[P, x] = True
        except Unsupported:
            pass
    return r


def _el(x, i, q):
    name, args, _ = x.data
    if name == ("L", "chol", 0, ()) and args[0][0] == "arr" and (_unit_row(args[0], Lin.of(q)) or _unit_row(args[0], i)):
        return iv_eq(i - q)
    return REBUILD["fn"]((name, args, (i, Lin.of(q))))