"""
Exact symbolic terms: the logic in which contracts on JAX-traced code are stated.

A term is a finite sum of monomials with rational coefficients.  A monomial is a product of
powers of atoms, possibly under bound summation variables ranging over a symbolic extent
(Einstein notation):   c * Sum_{b0<d, b1<m} prod_a a^e .
Atoms: elements of input arrays, applications of uninterpreted functions, Iverson brackets of
index conditions, values of loop carries, random draws...  All numbers are mathematical reals.

Nothing here is probabilistic or approximate: two terms that `is_zero(a-b)` accepts are equal
for every interpretation of the atoms (where defined), every extent and every index in range.
"""
from fractions import Fraction
from functools import lru_cache
from itertools import permutations
from math import factorial
from math import gcd

F = Fraction
F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """The prover cannot express this construct (never a verdict on the code)."""


class Budget(Unsupported):
    pass


MAX_MONOS = 60000

# ----------------------------------------------------------------- index variables and Lin


class Var:
    __slots__ = ("kind", "name", "ext", "id", "lo")
    table = {}

    def __new__(cls, kind, name, ext=None, lo=None):
        key = (kind, name, ext, lo)
        v = cls.table.get(key)
        if v is None:
            v = object.__new__(cls)
            v.kind, v.name, v.ext, v.lo = kind, name, ext, lo
            v.id = len(cls.table)
            cls.table[key] = v
        return v

    def __repr__(self):
        if self.kind in ("b", "l"):
            return f"{self.kind}{self.name[0]}.{self.name[1]}"
        return f"{self.name}"


class Lin:
    """Integer affine expression over Vars.  Immutable."""
    __slots__ = ("c", "k", "_h")

    def __init__(self, c=(), k=0):
        self.c = c  # tuple of (Var,int) sorted by Var.id, no zeros
        self.k = k
        self._h = hash((c, k))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if isinstance(o, int):
            return not self.c and self.k == o
        return isinstance(o, Lin) and self.k == o.k and self.c == o.c

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, Var):
            return Lin(((x, 1),), 0)
        return Lin((), int(x))

    def __add__(self, o):
        o = Lin.of(o)
        if not o.c:
            return Lin(self.c, self.k + o.k) if o.k else self
        if not self.c:
            return Lin(o.c, self.k + o.k)
        d = dict(self.c)
        for v, a in o.c:
            d[v] = d.get(v, 0) + a
        return Lin(tuple(sorted(((v, a) for v, a in d.items() if a), key=lambda t: t[0].id)), self.k + o.k)

    __radd__ = __add__

    def __neg__(self):
        return Lin(tuple((v, -a) for v, a in self.c), -self.k)

    def __sub__(self, o):
        return self + (-Lin.of(o))

    def __rsub__(self, o):
        return Lin.of(o) - self

    def __mul__(self, o):
        if isinstance(o, Lin):
            if o.is_const():
                o = o.k
            elif self.is_const():
                return o * self.k
            else:
                return lin_product(self, o)
        if o == 0:
            return Lin()
        return Lin(tuple((v, a * o) for v, a in self.c), self.k * o)

    __rmul__ = __mul__

    def is_const(self):
        return not self.c

    def const(self):
        if self.c:
            raise Unsupported(f"index {self} not constant")
        return self.k

    def vars(self):
        out = [v for v, _ in self.c if v.kind != "prod"]
        for v, _ in self.c:
            if v.kind == "prod":
                out += [w for w in v.name if w not in out]
        return out

    def prods(self):
        """Variables occurring in products."""
        return {w for v, _ in self.c if v.kind == "prod" for w in v.name}

    def subst(self, s):
        if not any(v in s or v.kind == "prod" and v.name[0] in s for v, _ in self.c):
            return self
        out = Lin((), self.k)
        for v, a in self.c:
            if v in s:
                out = out + Lin.of(s[v]) * a
            elif v.kind == "prod" and v.name[0] in s:
                out = out + Lin.of(s[v.name[0]]) * Lin.of(v.name[1]) * a
            else:
                out = out + Lin(((v, a),), 0)
        return out

    def __repr__(self):
        parts = [(f"{a}*" if a != 1 else "") + repr(v) for v, a in self.c]
        if self.k or not parts:
            parts.append(str(self.k))
        return "+".join(parts)


LOWER = {"s": 4}     # sizes with a lower bound above 1


def dim(name, lo=1):
    f = name.split("*")
    if len(f) > 1 and all(x.isidentifier() for x in f):
        f = sorted(f)
        name, lo = "*".join(f), 1
        for x in f:
            lo *= LOWER.get(x, 1)
    return Lin.of(Var("dim", name, None, LOWER.get(name, lo)))


def dim_factors(v):
    """Names of the factors of a size."""
    return v.name.split("*") if v.kind == "dim" and isinstance(v.name, str) else []


def lin_product(x, y):
    """Products of an index or a size with a size."""
    out = Lin((), 0)
    for v, a in x.c + ((None, x.k),):
        for w, b in y.c + ((None, y.k),):
            if not a * b:
                continue
            if v is None or w is None:
                u = v if w is None else w
                out = out + (a * b if u is None else Lin(((u, a * b),), 0))
                continue
            if v.kind == "dim" and w.kind == "dim":
                if all(f.isidentifier() for f in dim_factors(v) + dim_factors(w)):
                    out = out + dim("*".join(dim_factors(v) + dim_factors(w))) * (a * b)
                    continue
            elif v.kind != "prod" and w.kind != "prod" and (v.kind == "dim") != (w.kind == "dim"):
                if v.kind == "dim":
                    v, w = w, v
                if w.name.isidentifier():
                    out = out + Lin(((Var("prod", (v, w)), a * b),), 0)
                    continue
            raise Unsupported("non-affine index product")
    return out


def lin_divmod(l, s):
    """(A, B) with l = s*A + B and B free of products with s, for a size s; None if s does not divide any part."""
    if len(s.c) != 1 or s.k or s.c[0][1] != 1 or s.c[0][0].kind != "dim":
        return None
    w = s.c[0][0]
    A = Lin()
    for v, a in l.c:
        if v.kind == "prod" and v.name[1] is w:
            A = A + Lin(((v.name[0], a),), 0)
        elif v.kind == "dim" and v is not w and w.name in dim_factors(v):
            f = dim_factors(v)
            f.remove(w.name)
            A = A + dim("*".join(f)) * a
    if not A.c:
        return None
    B = l - A * s
    for q in range(-2, 3):
        R = B - s * q
        lo, hi = bounds(R)[0], bounds(R - s)[1]
        if lo is not None and lo >= 0 and hi is not None and hi < 0:
            return A + q, R
    return A, B


def radix(l):
    """(A, B, s): l = s*A + B with |B| < s, when l contains products with the size s."""
    for v, _ in l.c:
        w = v.name[1] if v.kind == "prod" else None
        if w is None:
            continue
        s = Lin.of(w)
        r = lin_divmod(l, s)
        if r is None:
            continue
        A, B = r
        if any(u.kind == "prod" and u.name[1] is w for u, _ in B.c):
            continue
        hi, lo = bounds(B - s)[1], bounds(B + s)[0]
        if hi is not None and hi < 0 and lo is not None and lo > 0:
            return A, B, s
    return None


_fresh = [0]


def ix(ext, name=None):
    """A fresh universally quantified index 0 <= i < ext."""
    if name is None:
        _fresh[0] += 1
        name = f"i{_fresh[0]}"
    return Lin.of(Var("ix", name, Lin.of(ext)))


@lru_cache(maxsize=200000)
def bounds(l):
    """(min, max) of l as ints or None, over all index ranges and all dims >= their lower bound."""
    return _inf(l), _neg(_inf(-l))


def _neg(x):
    return None if x is None else -x


def _inf(l):
    for _ in range(12):
        step = None
        for v, a in l.c:
            if v.kind == "prod":
                v = v.name[0]
            if v.kind != "dim" and v.ext is not None:
                step = v
                break
        if step is None:
            break
        v = step
        # the coefficient of v: an integer combination of sizes
        k = Lin((), 0)
        for u, a in l.c:
            if u is v:
                k = k + a
            elif u.kind == "prod" and u.name[0] is v:
                k = k + Lin(((u.name[1], a),), 0)
        if k.is_const():
            up = k.k > 0
        elif _inf(k) is not None and _inf(k) >= 0:
            up = True
        elif _inf(-k) is not None and _inf(-k) >= 0:
            up = False
        else:
            return None
        l = l.subst({v: Lin() if up else v.ext - 1})
    return _inf_dims(l)


def _inf_dims(l):
    """Lower bound of an integer combination of sizes."""
    s, c = l.k, dict(l.c)
    for v, a in l.c:
        # pair negative coefficients with a multiple of the size: d*s - s = (d - 1)*s
        if a < 0:
            for u, b in list(c.items()):
                f = dim_factors(u)
                if b > 0 and len(f) > 1 and v.name in f and v.kind == "dim":
                    f.remove(v.name)
                    rest = 1
                    for x in f:
                        rest *= LOWER.get(x, 1)
                    m = min(b, (-a) // rest)
                    if m > 0:
                        # m*(u - rest*v) >= 0
                        c[u] -= m
                        c[v] = c.get(v, 0) + m * rest
                        a = c[v]
                    if a >= 0:
                        break
    for v, a in c.items():
        if a < 0 or a and v.lo is None:
            return None
        s += a * v.lo if a else 0
    return s


def lmin(l):
    return bounds(Lin.of(l))[0]


def lmax(l):
    return bounds(Lin.of(l))[1]


# ----------------------------------------------------------------------------------- atoms


class Atom:
    __slots__ = ("kind", "data", "id", "fv", "bd")
    table = {}

    def __new__(cls, kind, data):
        key = (kind, data)
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.data = kind, data
            fv = set()
            a.bd = _scan(data, fv)
            a.fv = frozenset(fv)
            a.id = len(cls.table)
            cls.table[key] = a
        return a

    def __repr__(self):
        return show_atom(self)


def _scan(d, fv):
    """Collect free variables of nested data into fv; return the maximal binder depth inside."""
    if isinstance(d, tuple):
        if d and d[0] == "lam":
            bd = 0
            inner = set()
            bd = _scan(d[2], inner)
            fv |= inner - set(d[1])
            for v in d[1]:
                _scan(v.ext, fv)
            return max([bd] + [v.name[0] for v in d[1]])
        bd = 0
        for x in d:
            bd = max(bd, _scan(x, fv))
        return bd
    if isinstance(d, Lin):
        fv.update(d.vars())
        return 0
    if isinstance(d, Var):
        fv.add(d)
        return 0
    if isinstance(d, T):
        fv |= d.fv()
        return d.bdepth()
    return 0


def subst_data(d, s):
    if isinstance(d, tuple):
        if d and d[0] == "lam":
            return _subst_lam(d, s)
        return tuple(subst_data(x, s) for x in d)
    if isinstance(d, Lin):
        return d.subst(s)
    if isinstance(d, T):
        return d.subst(s)
    if isinstance(d, Var) and d in s:
        raise Unsupported("substituting a raw variable")
    return d


def _subst_lam(d, s):
    """The substitution may change the binder depth of the body: unbind, substitute, bind at the right level."""
    fv = d[2].fv()
    ext = tuple(v.ext.subst(s) for v in d[1])
    s = {v: l for v, l in s.items() if v in fv and v not in d[1]}
    if not s and all(e == v.ext for e, v in zip(ext, d[1])):
        return d
    fresh = []
    for e in ext:
        _fresh[0] += 1
        fresh.append(Var("t", _fresh[0], e))
    body = d[2].subst({**s, **{v: Lin.of(w) for v, w in zip(d[1], fresh)}})
    n = 1 + body.bdepth()
    new = tuple(Var("l", (n, j), e) for j, e in enumerate(ext))
    return ("lam", new, body.subst({w: Lin.of(v) for w, v in zip(fresh, new)}))


# special constructors re-run after substitution: kind -> function(data) -> T
REBUILD = {}


def atom(kind, *data):
    return T._of_atom(Atom(kind, data))


# ------------------------------------------------------------------------------------ terms


class T:
    """Term.  m: dict mono -> Fraction ; mono = (bvars, ((Atom, exp), ...))."""
    __slots__ = ("m", "_h", "_fv", "_bd")

    def __init__(self, m):
        self.m = m
        self._h = None
        self._fv = None
        self._bd = None

    @staticmethod
    def const(c):
        c = F(c)
        return T({ONE: c}) if c else ZERO

    @staticmethod
    def _of_atom(a):
        return T({((), ((a, 1),)): F1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, T) and self.m == o.m

    def fv(self):
        if self._fv is None:
            s = set()
            for bv, fs in self.m:
                t = set()
                for a, _ in fs:
                    t |= a.fv
                for v in bv:
                    for w in v.ext.vars():
                        t.add(w)
                s |= t - set(bv)
            self._fv = frozenset(s)
        return self._fv

    def bdepth(self):
        if self._bd is None:
            d = 0
            for bv, fs in self.m:
                for a, _ in fs:
                    d = max(d, a.bd)
                for v in bv:
                    d = max(d, v.name[0])
            self._bd = d
        return self._bd

    def is_const(self):
        return not self.m or (len(self.m) == 1 and ONE in self.m)

    def const_value(self):
        return self.m.get(ONE, F0)

    def __add__(self, o):
        o = lift(o)
        if not o.m:
            return self
        if not self.m:
            return o
        a, b = (self.m, o.m) if len(self.m) >= len(o.m) else (o.m, self.m)
        d = dict(a)
        for k, c in b.items():
            n = d.get(k, F0) + c
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        return T(d)

    __radd__ = __add__

    def __neg__(self):
        return T({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def scale(self, c):
        c = F(c)
        if c == 1:
            return self
        return T({k: c * x for k, x in self.m.items()}) if c else ZERO

    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            return self.scale(o)
        o = lift(o)
        if not self.m or not o.m:
            return ZERO
        if o.is_const():
            return self.scale(o.const_value())
        if self.is_const():
            return o.scale(self.const_value())
        if len(self.m) * len(o.m) > MAX_MONOS * 4:
            raise Budget("product too large")
        acc = {}
        extra = []
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                r = mul_mono(k1, k2)
                c = c1 * c2
                if isinstance(r, tuple):
                    n = acc.get(r, F0) + c
                    if n:
                        acc[r] = n
                    else:
                        acc.pop(r, None)
                else:
                    extra.append(r.scale(c))
        if len(acc) > MAX_MONOS:
            raise Budget("term too large")
        t = T(acc)
        for e in extra:
            t = t + e
        return t

    __rmul__ = __mul__

    def __pow__(self, n):
        return power(self, F(n))

    def __truediv__(self, o):
        if isinstance(o, (int, Fraction)):
            return self.scale(F(1) / F(o))
        return self * power(lift(o), F(-1))

    def __rtruediv__(self, o):
        return lift(o) / self

    def subst(self, s):
        fv = self.fv()
        s = {v: Lin.of(l) for v, l in s.items() if v in fv}
        if not s:
            return self
        key = (self, tuple(sorted(((v.id, l) for v, l in s.items()), key=lambda t: t[0])))
        r = _subst_cache.get(key)
        if r is None:
            out = ZERO
            for (bv, fs), c in self.m.items():
                out = out + rebuild_mono(bv, fs, s).scale(c)
            r = _subst_cache[key] = out
        return r

    def atoms(self, deep=True):
        seen = {}

        def go(d):
            if isinstance(d, tuple):
                for x in d:
                    go(x)
            elif isinstance(d, T):
                for bv, fs in d.m:
                    for a, _ in fs:
                        if a not in seen:
                            seen[a] = None
                            if deep:
                                go(a.data)

        go(self)
        return list(seen)

    def replace(self, f):
        """Rebuild bottom-up; f(atom) -> T or None (keep)."""
        return _replace(self, f, {})

    def __repr__(self):
        return show(self)


ONE = ((), ())
ZERO = T({})
UNIT = T({ONE: F1})
_subst_cache = {}


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (int, Fraction)):
        return T.const(x)
    if isinstance(x, Lin):
        return lin2t(x)
    if isinstance(x, Var):
        return lin2t(Lin.of(x))
    raise TypeError(f"cannot lift {type(x)}")


def lin2t(l):
    l = Lin.of(l)
    t = T.const(l.k)
    for v, a in l.c:
        if v.kind == "prod":
            t = t + (atom("var", Lin.of(v.name[0])) * atom("var", Lin.of(v.name[1]))).scale(a)
        else:
            t = t + atom("var", Lin.of(v)).scale(a)
    return t


def t2lin(t):
    """Term -> Lin, when it is an integer affine combination of index variables."""
    out = Lin()
    for (bv, fs), c in t.m.items():
        if c.denominator != 1:
            raise Unsupported(f"not an index: {show(t)[:120]}")
        if not fs:
            out = out + int(c)
        elif not bv and len(fs) == 1 and fs[0][0].kind == "var" and fs[0][1] == 1:
            out = out + fs[0][0].data[0] * int(c)
        elif not bv and len(fs) == 2 and all(a.kind == "var" and e == 1 for a, e in fs):
            out = out + fs[0][0].data[0] * fs[1][0].data[0] * int(c)
        else:
            raise Unsupported(f"not an index: {show(t)[:120]}")
    return out


def _rb_var(data):
    return lin2t(data[0])


REBUILD["var"] = _rb_var


def _replace(t, f, memo):
    r = memo.get(t)
    if r is not None:
        return r
    out = ZERO
    for (bv, fs), c in t.m.items():
        ch = False
        nf = []
        for a, e in fs:
            r = _replace_atom(a, f, memo)
            if r is not a:
                ch = True
            nf.append((r, e))
        if not ch:
            out = out + T({(bv, fs): c})
            continue
        # un-bind with fresh variables so that the replacement cannot capture
        acc = UNIT
        ren = {}
        fresh = []
        for v in bv:
            _fresh[0] += 1
            w = Var("t", _fresh[0], v.ext.subst(ren))
            fresh.append(w)
            ren[v] = Lin.of(w)
        if bv and not getattr(f, "atoms", False):
            acc = _replace(rebuild_mono((), fs, ren), f, memo)
        else:
            for r, e in nf:
                tt = T._of_atom(r) if isinstance(r, Atom) else r
                acc = acc * power(tt.subst(ren) if ren else tt, e)
        for w in reversed(fresh):
            acc = bsum(acc, w)
        out = out + acc.scale(c)
    memo[t] = out
    return out


def _replace_atom(a, f, memo):
    key = ("A", a)
    if key in memo:
        return memo[key]

    def go(d):
        if isinstance(d, tuple):
            if d and isinstance(d[0], str) and d[0] == "lam":
                kinds = getattr(f, "kinds", None)
                if kinds is not None and not any(x.kind in kinds for x in d[2].atoms()):
                    return d
                fresh = []
                for v in d[1]:
                    _fresh[0] += 1
                    fresh.append(Var("t", _fresh[0], v.ext))
                b0 = d[2].subst({v: Lin.of(w) for v, w in zip(d[1], fresh)})
                b1 = _replace(b0, f, {})
                if b1 == b0:
                    return d
                dep = 1 + b1.bdepth()
                new = tuple(Var("l", (dep, j), v.ext) for j, v in enumerate(fresh))
                return ("lam", new, b1.subst({v: Lin.of(n) for v, n in zip(fresh, new)}))
            return tuple(go(x) for x in d)
        if isinstance(d, T):
            return _replace(d, f, memo)
        return d

    nd = go(a.data)
    if nd != a.data:
        rb = REBUILD.get(a.kind)
        res = rb(nd) if rb else Atom(a.kind, nd)
        if isinstance(res, T):
            if len(res.m) == 1:
                (k, c), = res.m.items()
                if c == 1 and not k[0] and len(k[1]) == 1 and k[1][0][1] == 1:
                    res = k[1][0][0]
    else:
        res = a
    if isinstance(res, Atom):
        r = f(res)
        if r is not None:
            res = r
    memo[key] = res
    return res


# ------------------------------------------------------------------- monomials, bound vars


def rebuild_mono(bv, fs, s):
    """Apply an index substitution to a monomial and renormalise."""
    if bv:
        ren = dict(s)
        fresh = []
        for v in bv:
            _fresh[0] += 1
            w = Var("t", _fresh[0], v.ext.subst(s))
            ren[v] = Lin.of(w)
            fresh.append(w)
        s = ren
    acc = UNIT
    keep = []
    for a, e in fs:
        if a.fv.isdisjoint(s):
            keep.append((a, e))
            continue
        nd = subst_data(a.data, s)
        rb = REBUILD.get(a.kind)
        if rb:
            acc = acc * power(rb(nd), e)
        else:
            acc = acc * T({((), ((Atom(a.kind, nd), e),)): F1})
    if keep:
        acc = acc * normal_factors(keep)
    if bv:
        for w in fresh:
            acc = bsum(acc, w)
    return acc


def normal_factors(fs):
    """Product of atom powers without bound variables -> T (handles iv, prime, poly rules)."""
    d = {}
    for a, e in fs:
        d[a] = d.get(a, 0) + e
    return _finish(d)


def _finish(d):
    coef = F1
    post = []
    eqs = False
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        k = a.kind
        if k == "iv":
            d[a] = 1
            if a.data[0] == "eq":
                eqs = True
        elif k == "cmp":
            d[a] = 1
        elif k == "prime":
            e = F(e)
            fl = e.numerator // e.denominator
            if fl:
                coef *= F(a.data[0]) ** fl
            e -= fl
            if e:
                d[a] = e
            else:
                del d[a]
        elif k == "poly":
            e = F(e)
            if e >= 1:
                fl = e.numerator // e.denominator
                e -= fl
                p = a.data[0]
                for _ in range(fl):
                    post.append(p)
                if e:
                    d[a] = e
                else:
                    del d[a]
    if eqs:
        r = _apply_eqs(d)
        if r is not None:
            t = r
            for p in post:
                t = t * p
            return t.scale(coef)
    t = T({((), tuple(sorted(d.items(), key=lambda t: t[0].id))): coef})
    for p in post:
        t = t * p
    return t


def _eqvar(l, avoid=()):
    """Pick a variable of the equality l = 0 with unit coefficient that can be eliminated."""
    best = None
    inside = l.prods()
    for v, a in l.c:
        if v in inside:
            continue
        if abs(a) == 1 and v.kind in ("ix", "t", "b", "l") and v not in avoid:
            # prefer eliminating bound/temporary variables, then later ones
            key = ({"t": 3, "b": 2, "l": 1, "ix": 0}[v.kind], v.id)
            if best is None or key > best[0]:
                best = (key, v, a)
    return best


def _eqdim(l):
    """A size fixed by the equality l = 0 between sizes."""
    inside = l.prods()
    for v, a in l.c:
        if v.kind == "dim" and abs(a) == 1 and v not in inside:
            return None, v, a
    return None


def _apply_eqs(d):
    """Use equality brackets in a product to rewrite the other factors.  None if nothing to do."""
    for a in d:
        if a.kind == "iv" and a.data[0] == "eq":
            b = _eqvar(a.data[1]) or _eqdim(a.data[1])
            if b is None:
                continue
            _, v, c = b
            others = {x: e for x, e in d.items() if x is not a and v in x.fv}
            if not others:
                continue
            val = (a.data[1] - Lin(((v, c),), 0)) * (-c)
            acc = UNIT
            for x, e in d.items():
                if x in others:
                    t = T._of_atom(x).subst({v: val})
                    acc = acc * power(t, e)
                elif x is not a:
                    acc = acc * T({((), ((x, e),)): F1})
                if not acc.m:
                    return ZERO
            return acc * T._of_atom(a)
    return None


@lru_cache(maxsize=400000)
def mul_mono(k1, k2):
    """Product of two monomials: a mono (tuple) or a T."""
    b1, f1 = k1
    b2, f2 = k2
    if not b1 and not b2:
        if not f1:
            return k2
        if not f2:
            return k1
        d = dict(f1)
        simple = True
        for a, e in f2:
            if a in d:
                n = d[a] + e
                if a.kind in ("iv", "cmp"):
                    n = 1
                elif a.kind in ("prime", "poly"):
                    simple = False
                if n:
                    d[a] = n
                else:
                    del d[a]
            else:
                d[a] = e
        if simple:
            if not any(a.kind == "iv" and a.data[0] == "eq" for a in d):
                return ((), tuple(sorted(d.items(), key=lambda t: t[0].id)))
        t = _finish(d)
        if len(t.m) == 1:
            (k, c), = t.m.items()
            if c == 1:
                return k
        return t
    ren1, fr = _unbind(b1)
    ren2, fr2 = _unbind(b2)
    acc = _ren(f1, ren1) * _ren(f2, ren2)
    for w in fr + fr2:
        acc = bsum(acc, w)
    return acc


def _unbind(bv):
    ren, fresh = {}, []
    for v in bv:
        _fresh[0] += 1
        w = Var("t", _fresh[0], v.ext)
        ren[v] = Lin.of(w)
        fresh.append(w)
    return ren, fresh


def _ren(fs, ren):
    return rebuild_mono((), fs, ren) if ren else T({((), fs): F1})


def bsum(t, w):
    """Sum_{0 <= w < w.ext} t, for a variable w occurring free in t."""
    w = w if isinstance(w, Var) else w.vars()[0]
    ext = w.ext
    out = ZERO
    for (bv, fs), c in t.m.items():
        occurs = any(w in a.fv for a, _ in fs) or any(w in v.ext.vars() for v in bv)
        if not occurs:
            out = out + (T({(bv, fs): c}) * lin2t(ext))
            continue
        # elimination by an equality bracket
        done = False
        for a, e in fs:
            if a.kind == "iv" and a.data[0] == "eq" and w in a.fv:
                cw = dict(a.data[1].c).get(w)
                if cw is None or abs(cw) != 1 or w in a.data[1].prods():
                    continue
                if any(v in bv for v in a.data[1].vars()):
                    # still inside another binder: unbind those first
                    pass
                ren, fresh = _unbind(bv)
                lin = a.data[1].subst(ren)
                val = (lin - Lin(((w, cw),), 0)) * (-cw)
                rest = tuple((x, y) for x, y in fs if x is not a)
                r = rebuild_mono((), rest, {**ren, w: val})
                r = r * iv_ge(val) * iv_ge(ext - 1 - val)
                for f in fresh:
                    r = bsum(r, f)
                out = out + r.scale(c)
                done = True
                break
        if done:
            continue
        # counting / power sums: w occurs only in range brackets and as a number
        if all(w not in a.fv or a.kind == "var" and a.data[0] == Lin.of(w) and e > 0
               or a.kind == "iv" and a.data[0] == "ge" and w not in a.data[1].prods() and abs(dict(a.data[1].c)[w]) == 1 for a, e in fs) and \
                not any(w in v.ext.vars() for v in bv) and not (ext.is_const() and ext.k <= 64):
            ren, fresh = _unbind(bv)
            rest, p, los, his = [], 0, [Lin()], [ext - 1]
            for a, e in fs:
                if w not in a.fv:
                    rest.append((a, e))
                elif a.kind == "var":
                    p += int(e)
                else:
                    l = a.data[1].subst(ren)
                    cw = dict(l.c)[w]
                    o = l - Lin(((w, cw),), 0)
                    if cw == 1:
                        los.append(-o)
                    else:
                        his.append(o)
            r = power_sum(p, los, his)
            r = r * rebuild_mono((), tuple(rest), ren) if rest else r
            for f in fresh:
                r = bsum(r, f)
            out = out + r.scale(c)
            continue
        # range restriction by ge brackets with only w (constant split) is left symbolic
        # small concrete extent: expand
        if ext.is_const() and ext.k <= 64:
            ren, fresh = _unbind(bv)
            for q in range(ext.k):
                r = rebuild_mono((), fs, {**ren, w: Lin.of(q)})
                for f in fresh:
                    r = bsum(r, f)
                out = out + r.scale(c)
            continue
        out = out + canon_bound(bv + (w,), fs).scale(c)
    return out


_bern = [F1]


def _bernoulli(n):
    from math import comb
    while len(_bern) <= n:
        m = len(_bern)
        _bern.append(-sum((comb(m + 1, k) * _bern[k] for k in range(m)), F0) / (m + 1))
    return _bern[n]


def power_sum(p, los, his):
    """Sum of w^p over max(los) <= w <= min(his)."""
    from math import comb
    los, his = list(los), list(his)
    for xs, sg in ((los, 1), (his, -1)):
        while len(xs) > 1:
            a, b = xs[0], xs[1]
            lo = lmin((a - b) * sg)
            hi = lmax((a - b) * sg)
            if lo is not None and lo >= 0:
                xs.pop(1)
            elif hi is not None and hi <= 0:
                xs.pop(0)
            else:
                ga = iv_ge((a - b) * sg)
                xa, xb = [a] + xs[2:], [b] + xs[2:]
                if sg == 1:
                    return ga * power_sum(p, xa, his) + (UNIT - ga) * power_sum(p, xb, his)
                return ga * power_sum(p, los, xa) + (UNIT - ga) * power_sum(p, los, xb)
    lo, hi = los[0], his[0]

    def S(n):
        # Sum_{0 <= w < n} w^p as a polynomial in n
        n = lin2t(n)
        out = ZERO
        for k in range(p + 1):
            out = out + power(n, F(p + 1 - k)).scale(_bernoulli(k) * comb(p + 1, k) / (p + 1))
        return out
    r = S(hi + 1) - S(lo)
    return r * iv_ge(hi - lo + 1)


_intern = {}


def _code(x):
    r = _intern.get(x)
    if r is None:
        r = _intern[x] = len(_intern)
    return r


def _sig(d, col, mark):
    """Renaming-invariant signature of atom data; mark singles out one bound variable."""
    if isinstance(d, Lin):
        b = sorted((-7 if v is mark else col[v], a) for v, a in d.c if v in col)
        p = sorted((-7 if v.name[0] is mark else col[v.name[0]], v.name[1].id, a) for v, a in d.c
                   if v.kind == "prod" and v.name[0] in col)
        rest = tuple((v.id, a) for v, a in d.c if v not in col and not (v.kind == "prod" and v.name[0] in col))
        return _code(("lin", tuple(b), tuple(p), rest, d.k))
    if isinstance(d, T):
        if not any(v in col for v in d.fv()):
            return _code(("t", d))
        ms = []
        for (bv, fs), c in d.m.items():
            # inner bound variables are anonymous: their names may depend on the outer ones
            col2 = {**col, **{v: _code(("ib", v.ext)) for v in bv}} if bv else col
            ms.append((tuple(sorted((_sig_atom(a, col2, mark), _code(("k", a.kind)), str(e)) for a, e in fs)),
                       len(bv), str(c)))
        return _code(("T", tuple(sorted(ms))))
    if isinstance(d, tuple):
        return _code(("tup", tuple(_sig(x, col, mark) for x in d)))
    return _code(("x", type(d).__name__, d))


def _colours(bv, fs):
    col = {v: _code(("ext", v.ext)) for v in bv}
    n = len(set(col.values()))
    for _ in range(len(bv) + 1):
        new = {}
        for v in bv:
            s = tuple(sorted((_sig_atom(a, col, v), _code(str(e))) for a, e in fs if v in a.fv))
            new[v] = _code(("col", col[v], s))
        col = new
        k = len(set(col.values()))
        if k == n or k == len(bv):
            n = k
            if k == len(bv):
                break
            break
        n = k
    return col


def _sig_atom(a, col, mark):
    d = a.data
    if a.kind == "iv":
        x = min(_sig(d[1], col, mark), _sig(-d[1], col, mark), _sig(-d[1] - 1, col, mark))
        return _code(("iv", d[0], x))
    if (a.kind == "sym" and d[0] in SYMMETRIC or a.kind == "carry" and d[:2] in SYMCARRY or a.kind == "fn" and isinstance(d[0], tuple) and d[0][0] == "S"):
        idx = d[-1]
        r = tuple(sorted((_sig(idx[-1], col, mark), _sig(idx[-2], col, mark))))
        return _code(("symm", a.kind, _sig(d[:-1], col, mark), _sig(tuple(idx[:-2]), col, mark), r))
    return _code((a.kind, _sig(d, col, mark)))


_canon_cache = {}


def canon_bound(bv, fs):
    """Canonical renaming of the bound variables of a monomial (each of them occurs in fs)."""
    key = (bv, fs)
    r = _canon_cache.get(key)
    if r is not None:
        return r
    # dead bound variables (can appear after rewriting)
    used = set()
    for a, _ in fs:
        used |= a.fv
    for v in bv:
        if v not in used and not any(v in w.ext.vars() for w in bv):
            rest = tuple(x for x in bv if x is not v)
            r = (canon_bound(rest, fs) if rest else T({((), fs): F1})) * lin2t(v.ext)
            _canon_cache[key] = r
            return r
    depth = 1 + max(a.bd for a, _ in fs)
    exts = sorted(set(v.ext for v in bv), key=lambda e: repr(e))
    groups = [[v for v in bv if v.ext == e] for e in exts]
    if max(len(g) for g in groups) > 2:
        col = _colours(bv, fs)
        groups = [[v for v in g if col[v] == c] for g in groups for c in sorted(set(col[v] for v in g))]
    n = 1
    for g in groups:
        n *= factorial(len(g))
    if n > 5040:
        raise Budget("too many bound variables")
    best = None

    def rec(gi, ren, k):
        nonlocal best
        if gi == len(groups):
            ct = rebuild_mono((), fs, ren)
            if any(cb for cb, _ in ct.m):
                raise Unsupported("nested binder")
            if len(ct.m) != 1:
                if best is None:
                    best = ((), ct, None)  # bracket orientation changed: not canonical, still exact
                return
            ((cb, cand), cc), = ct.m.items()
            sig = tuple((a.id, e) for a, e in cand)
            if best is None or best[2] is None or sig < best[0]:
                best = (sig, cand, cc)
            return
        g = groups[gi]
        for p in permutations(range(len(g))):
            r2 = dict(ren)
            for v, j in zip(g, p):
                r2[v] = Lin.of(Var("b", (depth, k + j), v.ext))
            rec(gi + 1, r2, k + len(g))

    rec(0, {}, 0)
    nb = []
    k = 0
    for g in groups:
        for _ in g:
            nb.append(Var("b", (depth, k), g[0].ext))
            k += 1
    if best[2] is None:
        r = ZERO
        for (_, fs2), cc in best[1].m.items():
            live = [v for v in nb if any(v in a.fv for a, _ in fs2) or any(v in w.ext.vars() for w in nb)]
            q = T({(tuple(live), fs2): cc})
            for v in nb:
                if v not in live:
                    q = q * lin2t(v.ext)
            r = r + q
    else:
        r = T({(tuple(nb), best[1]): best[2]})
    _canon_cache[key] = r
    return r


def big_sum(ext, f):
    """Sum_{0 <= i < ext} f(i)."""
    ext = Lin.of(ext)
    if ext.is_const():
        out = ZERO
        for q in range(ext.k):
            out = out + f(Lin.of(q))
        return out
    _fresh[0] += 1
    w = Var("t", _fresh[0], ext)
    return bsum(f(Lin.of(w)), w)


# ----------------------------------------------------------------------- Iverson brackets


def iv_ge(l):
    """[l >= 0]"""
    l = Lin.of(l)
    lo, hi = bounds(l)
    if lo is not None and lo >= 0:
        return UNIT
    if hi is not None and hi < 0:
        return ZERO
    g = 0
    for _, a in l.c:
        g = gcd(g, a)
    if g > 1:
        l = Lin(tuple((v, a // g) for v, a in l.c), l.k // g)
        return iv_ge(l)
    if lo == -1:
        return UNIT - iv_eq(l + 1)
    if hi == 0:
        return iv_eq(l)
    r = radix(l)
    if r is not None:
        return iv_ge(r[0] - 1) + iv_eq(r[0]) * iv_ge(r[1])
    if l.c[0][1] < 0:
        return UNIT - iv_ge(-l - 1)
    return T._of_atom(Atom("iv", ("ge", l)))


def iv_eq(l):
    l = Lin.of(l)
    if not l.c:
        return UNIT if l.k == 0 else ZERO
    lo, hi = bounds(l)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return ZERO
    g = 0
    for _, a in l.c:
        g = gcd(g, a)
    if l.k % g:
        return ZERO
    if g > 1:
        l = Lin(tuple((v, a // g) for v, a in l.c), l.k // g)
    r = radix(l)
    if r is not None:
        return iv_eq(r[0]) * iv_eq(r[1])
    if l.c[0][1] < 0:
        l = -l
    # a single variable pinned at an end of a singleton range
    return T._of_atom(Atom("iv", ("eq", l)))


REBUILD["iv"] = lambda data: iv_ge(data[1]) if data[0] == "ge" else iv_eq(data[1])


# ------------------------------------------------------------------------ powers, exp, etc.

POSITIVE = set()  # names of positive symbols
PDIAG = set()  # names of matrices with positive diagonal


def atom_positive(a):
    k = a.kind
    if k == "sym":
        return a.data[0] in POSITIVE or a.data[0] in PDIAG and a.data[1][-1] == a.data[1][-2]
    if k == "var":
        l = lmin(a.data[0])
        return l is not None and l > 0
    if k in ("prime", "exp"):
        return True
    if k == "fn" and isinstance(a.data[0], tuple):
        if a.data[0] == ("X", "fact"):
            try:
                return lmin(t2lin(a.data[1][0])) >= 0
            except (Unsupported, TypeError):
                return False
        return a.data[0] == ("X", "pow") and t_positive(a.data[1][0])
    if k == "fn":
        return a.data[0] in POSITIVE
    return False


def factor_sign(a, e):
    """1 or -1 for a factor of known sign, else 0."""
    if atom_positive(a) or a.kind == "poly" and t_positive(a.data[0]):
        return 1
    if a.kind == "poly" and e == int(e) and t_positive(-a.data[0]):
        return -1 if int(e) % 2 else 1
    return 0


def t_positive(t):
    """Sufficient test for t > 0."""
    if not t.m:
        return False
    for (bv, fs), c in t.m.items():
        sign = 0 if bv else 1 if c > 0 else -1
        for a, e in fs:
            sign = sign and sign * factor_sign(a, e)
        if sign <= 0:
            return _lin_pos(t)
    return True


def _lin_pos(t):
    try:
        l = t2lin(t)
    except Unsupported:
        return False
    lo = lmin(l)
    return lo is not None and lo > 0


def factorint(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def rat_pow(c, e):
    """c ** e for positive rational c as a term."""
    if e.denominator == 1:
        return T.const(F(c) ** int(e))
    t = UNIT
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in factorint(n).items():
            t = t * normal_factors([(Atom("prime", (p,)), F(k) * e * s)])
    return t


def mono_order(k):
    return (len(k[1]), tuple((a.id, e) for a, e in k[1]), len(k[0]))


def power(t, e):
    e = F(e)
    if e == 1:
        return t
    if e == 0:
        return UNIT
    if not t.m:
        if e > 0:
            return ZERO
        raise Unsupported("division by zero term")
    if e.denominator == 1 and e > 0 and (len(t.m) > 1 or any(k[0] for k in t.m)):
        r = UNIT
        n = int(e)
        b = t
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r
    if len(t.m) == 1:
        ((bv, fs), c), = t.m.items()
        if not bv:
            if e.denominator == 1:
                out = T.const(c ** int(e))
                return out * normal_factors([(a, x * e) for a, x in fs]) if fs else out
            # fractional power: pull out positive atoms
            pos, rest = [], []
            for a, x in fs:
                (pos if atom_positive(a) or (a.kind == "poly" and t_positive(a.data[0])) else rest).append((a, x))
            if not rest and c > 0:
                return rat_pow(c, e) * normal_factors([(a, x * e) for a, x in pos])
            out = rat_pow(abs(c), e) * (normal_factors([(a, x * e) for a, x in pos]) if pos else UNIT)
            inner = normal_factors(rest).scale(1 if c > 0 else -1)
            if len(rest) == 1 and c > 0 and rest[0][0].kind == "poly":
                return out * normal_factors([(rest[0][0], rest[0][1] * e)])
            return out * normal_factors([(Atom("poly", (inner,)), e)])
    # general polynomial: content extraction
    num = 0
    den = 1
    for c in t.m.values():
        num = gcd(num, c.numerator)
        den = den * c.denominator // gcd(den, c.denominator)
    content = F(num, den)
    ks = sorted(t.m, key=mono_order)
    common = None
    for bv, fs in t.m:
        d = dict(fs)
        if bv:
            common = {}
            break
        if common is None:
            common = d
        else:
            common = {a: min(x, d[a]) if (x > 0) == (d[a] > 0) else 0 for a, x in common.items() if a in d}
    # negative powers not shared by all monomials: bring to a common denominator
    negs = {}
    for bv, fs in t.m:
        if bv:
            continue
        for a, x in fs:
            if x < 0 and a.kind not in ("iv", "cmp"):
                negs[a] = min(negs.get(a, 0), x)
    common = {a: x for a, x in (common or {}).items() if x and a.kind not in ("iv", "cmp")}
    if not any(bv for bv, _ in t.m):
        for a, x in negs.items():
            common[a] = x
    if e.denominator != 1:
        common = {a: x for a, x in common.items() if atom_positive(a)}
    pre = UNIT
    if common:
        inv = T({((), tuple(sorted(((a, -x) for a, x in common.items()), key=lambda q: q[0].id))): F1})
        t = t * inv
        pre = normal_factors([(a, x * e) for a, x in common.items()])
        if len(t.m) <= 1:
            return pre * power(t, e)
        return pre * power(t, e)
    sign = 1
    if e.denominator == 1 and t.m[ks[0]] < 0:
        sign = -1
    t = t.scale(F(sign) / content)
    cf = rat_pow(content, e) if e.denominator != 1 else T.const((content * sign) ** int(e))
    return pre * cf * normal_factors([(Atom("poly", (t,)), e)])


REBUILD["poly"] = lambda data: data[0]

SYMCARRY = set()  # (loop, slot) of symmetric matrix-valued loop carries
SYMMETRIC = set()  # names of symbols / functions whose last two indices commute


def lin_key(l):
    return (len(l.c), tuple((v.id, a) for v, a in l.c), l.k)


def _sort2(idx):
    a, b = idx[-2:]
    return idx if lin_key(a) <= lin_key(b) else idx[:-2] + (b, a)


def sym_atom(data):
    name, idx = data
    if name in SYMMETRIC:
        idx = _sort2(idx)
    return T._of_atom(Atom("sym", (name, idx)))


def fn_atom(data):
    name, args, idx = data
    if isinstance(name, tuple) and name[0] == "S":  # symmetric in its last two output indices
        idx = _sort2(idx)
    if isinstance(name, tuple) and name[0] == "L":  # lower triangular in its last two output indices
        lo = lmin(idx[-1] - idx[-2] - 1)
        if lo is not None and lo >= 0:
            return ZERO
    if isinstance(name, tuple) and name[0] == "X":
        r = _rb_special(name[1], args)
        if r is not None:
            return r
    return T._of_atom(Atom("fn", (name, args, idx)))


def _rb_special(name, args):
    """Powers with a symbolic exponent and factorials, rebuilt after a substitution."""
    from math import factorial
    if name == "fact":
        y = t2lin(args[0])
        if y.is_const():
            if y.k < 0:
                return None
            return T.const(F(factorial(y.k)))
        return None
    if name == "pow":
        y = t2lin(args[1])
        if y.k == 0 and len(y.c) == 1 and y.c[0][1] == 1:
            return None
        from .interp import power_lin
        return power_lin(args[0], args[1])
    return None


REBUILD["sym"] = sym_atom
REBUILD["fn"] = fn_atom


def t_exp(t):
    out = UNIT
    for k, c in t.m.items():
        if k == ONE:
            out = out * normal_factors([(Atom("exp", (UNIT,)), c)])
        else:
            out = out * normal_factors([(Atom("exp", (T({k: F1}),)), c)])
    return out


REBUILD["exp"] = lambda data: t_exp(data[0])


def t_cmp(op, t):
    """[t >= 0] (ge) or [t == 0] (eq) for real terms."""
    try:
        l = t2lin(t)
        return iv_ge(l) if op == "ge" else iv_eq(l)
    except Unsupported:
        pass
    if 0 < len(t.m) <= 8 and all(not bv and all(a.kind in ("iv", "cmp") for a, _ in fs) for bv, fs in t.m):
        ats = sorted({a for _, fs in t.m for a, _ in fs}, key=lambda a: a.id)
        if 0 < len(ats) <= 3:
            a = ats[0]
            at = T._of_atom(a)
            return at * t_cmp(op, _set_atom(t, a, UNIT)) + (UNIT - at) * t_cmp(op, _set_atom(t, a, ZERO))
    elif len(t.m) <= 24:
        ats = sorted({a for bv, fs in t.m for a, _ in fs if a.kind == "iv" and not any(v in bv for v in a.fv)},
                     key=lambda a: a.id)
        if 0 < len(ats) <= 5:
            a = ats[0]
            at = T._of_atom(a)
            return at * t_cmp(op, _set_atom(t, a, UNIT)) + (UNIT - at) * t_cmp(op, _set_atom(t, a, ZERO))
    if t.is_const():
        c = t.const_value()
        return UNIT if (c >= 0 if op == "ge" else c == 0) else ZERO
    if t_positive(t):
        return UNIT if op == "ge" else ZERO
    if t_positive(-t):
        return ZERO
    ks = sorted(t.m, key=mono_order)
    c = t.m[ks[0]]
    if op == "eq":
        return atom("cmp", "eq", t.scale(1 / c))
    return atom("cmp", "ge", t.scale(1 / abs(c)))


REBUILD["cmp"] = lambda data: t_cmp(data[0], data[1])


def make_lam(exts, f):
    """Canonical lambda over indices."""
    vs = []
    for e in exts:
        _fresh[0] += 1
        vs.append(Var("t", _fresh[0], Lin.of(e)))
    body = f(tuple(Lin.of(v) for v in vs))
    d = 1 + body.bdepth()
    new = tuple(Var("l", (d, j), v.ext) for j, v in enumerate(vs))
    return ("lam", new, body.subst({v: Lin.of(n) for v, n in zip(vs, new)}))


# ----------------------------------------------------------------------------- zero testing


@lru_cache(maxsize=100000)
def feasible(facts):
    """False if the linear facts (each >= 0; ("ne", l): l != 0), with the ranges of the variables, contradict each other
    over the rationals (after rounding to integers); True if not decided."""
    apart = [l for l in facts if isinstance(l, tuple)]
    if apart:
        facts = frozenset(l for l in facts if not isinstance(l, tuple))
        if not feasible(facts):
            return False
        for _, l in apart:
            up, down = feasible(facts | {l - 1}), feasible(facts | {-l - 1})
            if not up and not down:
                return False
            if not (up and down):
                facts = facts | {l - 1 if up else -l - 1}
        return True
    todo, cons, seen = set(), set(), set()
    for l in facts:
        cons.add(l)
        todo |= set(l.vars())
    while todo:
        v = todo.pop()
        if v in seen or v.kind == "prod":
            continue
        seen.add(v)
        if v.kind == "dim":
            if v.lo is not None:
                cons.add(Lin(((v, 1),), -v.lo))
        elif v.kind == "l":
            continue
        elif v.ext is not None:
            cons.add(Lin(((v, 1),), 0))
            cons.add(v.ext - 1 - Lin(((v, 1),), 0))
            todo |= set(v.ext.vars())

    def norm(l):
        g = 0
        for _, a in l.c:
            g = gcd(g, a)
        return Lin(tuple((v, a // g) for v, a in l.c), l.k // g) if g > 1 else l
    cons = {norm(l) for l in cons}
    while True:
        if any(not l.c and l.k < 0 for l in cons):
            return False
        cons = {l for l in cons if l.c}
        vs = {v for l in cons for v, _ in l.c}
        if not vs:
            return True

        def cost(v):
            p = sum(1 for l in cons if dict(l.c).get(v, 0) > 0)
            n = sum(1 for l in cons if dict(l.c).get(v, 0) < 0)
            return p * n - p - n
        v = min(vs, key=lambda v: (cost(v), v.id))
        pos, neg, rest = [], [], set()
        for l in cons:
            a = dict(l.c).get(v, 0)
            (pos if a > 0 else neg).append((a, l)) if a else rest.add(l)
        for a, l in pos:
            for b, m in neg:
                rest.add(norm(l * (-b) + m * a))
        if len(rest) > 150:
            return True
        cons = rest


def is_zero(t, depth=0, facts=frozenset()):
    """Sound test that t = 0 identically (where the facts hold)."""
    if not t.m:
        return True
    if depth > 40:
        return False
    # Iverson case split
    ivs = [a for k in t.m for a, _ in k[1] if a.kind == "iv" and not any(v.kind in ("b", "t", "l") for v in a.fv)]
    if ivs:
        a = min(ivs, key=lambda x: x.id)
        l = a.data[1]
        neg = _assume(_set_atom(t, a, ZERO), a, False)
        if neg.m:
            fn = facts | {-l - 1 if a.data[0] == "ge" else ("ne", l)}
            if feasible(fn) and not is_zero(neg, depth + 1, fn):
                return False
        pos = _assume(_set_atom(t, a, UNIT), a, True)
        if not pos.m:
            return True
        fp = facts | ({l} if a.data[0] == "ge" else {l, -l})
        if not feasible(fp):
            return True
        if a.data[0] == "eq":
            b = _eqvar(l) or _eqdim(l)
            if b is not None:
                _, v, c = b
                pos = pos.subst({v: (l - Lin(((v, c),), 0)) * (-c)})
        return is_zero(pos, depth + 1, fp)
    # denominators
    negs = {}
    for (bv, fs) in t.m:
        for a, e in fs:
            if a.kind == "poly" and e < 0 and not (a.fv & set(bv)):
                negs[a] = min(negs.get(a, 0), e)
    if negs:
        a = max(negs, key=lambda x: x.id)
        e0 = negs[a]
        out = ZERO
        n = -(e0.numerator // e0.denominator) if isinstance(e0, Fraction) else -e0
        p = a.data[0]
        cache = {}
        groups = {}
        for (bv, fs), c in t.m.items():
            d = dict(fs)
            x = d.pop(a, 0)
            k = (bv, tuple(sorted(d.items(), key=lambda q: q[0].id)))
            groups.setdefault(F(x) + n, {})[k] = c
        for x, m in groups.items():
            if x not in cache:
                fl = x.numerator // x.denominator
                pt = power(p, F(fl)) if fl else UNIT
                if x - fl:
                    pt = pt * T({((), ((a, x - fl),)): F1})
                cache[x] = pt
            out = out + T(m) * cache[x]
        return is_zero(out, depth + 1, facts)
    r = drop_upper(t, facts)
    if r is not None:
        return is_zero(r, depth + 1, facts)
    # congruence of function atoms
    r = unify_congruent(t)
    if r is not None:
        return is_zero(r, depth + 1, facts)
    r = align_sums(t)
    if r is not None:
        return is_zero(r, depth + 1, facts)
    return False


def drop_upper(t, facts=frozenset()):
    """t without the values of a lower triangular factor that the brackets place above its diagonal; sums over places
    of which only the diagonal is left are resolved.  None if nothing changes."""
    out, more, changed = {}, ZERO, False

    def decide(u, f):
        """A combination of brackets, where the facts hold."""
        for a in sorted({a for _, fs in u.m for a, _ in fs if a.kind == "iv"}, key=lambda a: a.id):
            l = a.data[1]
            if not feasible(frozenset(f | ({l} if a.data[0] == "ge" else {l, -l}))):
                u = _set_atom(u, a, ZERO)
            elif not feasible(frozenset(f | {-l - 1})) and a.data[0] == "ge":
                u = _set_atom(u, a, UNIT)
        return T({(bv, fs): c for (bv, fs), c in u.m.items() if bv or feasible(frozenset(f | facts_of(fs)))})

    def facts_of(fs):
        f = set()
        for a, _ in fs:
            if a.kind == "iv":
                f |= {a.data[1]} if a.data[0] == "ge" else {a.data[1], -a.data[1]}
        return f
    for (bv, fs), c in t.m.items():
        low = [a.data[2] for a, e in fs if a.kind == "fn" and isinstance(a.data[0], tuple) and a.data[0][0] == "L" and e > 0]
        if not low:
            out[(bv, fs)] = c
            continue
        ren, fresh = _unbind(bv)
        f = set(facts) | {l.subst(ren) for l in facts_of(fs)}
        drop, left = False, []
        for i in low:
            l = (i[-2] - i[-1]).subst(ren)
            u = decide(iv_ge(l), f)
            if not u.m:
                drop = True
            elif bv and any(v in bv for v in (i[-2] - i[-1]).vars()):
                left.append(u)
        if drop:
            changed = True
            continue
        for u in left:
            r = rebuild_mono((), fs, ren) * u
            for w in reversed(fresh):
                r = bsum(r, w)
            if all(len(k[0]) < len(bv) for k in r.m):
                more = more + r.scale(c)
                changed = True
                break
        else:
            # brackets that being on or below the diagonal implies
            keep = list(fs)
            below = [iv_ge(i[-2] - i[-1]) for i in low]
            for a, e in fs:
                if a.kind == "iv" and a.data[0] == "ge":
                    rest = [q for q in keep if q[0] is not a]
                    f = set(facts) | facts_of(rest)
                    if any(not decide(u * iv_ge(-a.data[1] - 1), f).m for u in below):
                        keep = rest
            if len(keep) < len(fs):
                r = rebuild_mono((), tuple(keep), ren)
                for w in reversed(fresh):
                    r = bsum(r, w)
                more = more + r.scale(c)
                changed = True
            else:
                out[(bv, fs)] = c
    return T(out) + more if changed else None


def _assume(t, a, holds):
    """t with the brackets decided that follow from a bracket being one or zero."""
    kind, l = a.data[0], a.data[1]
    others = {x for k in t.m for x, _ in k[1] if x.kind == "iv" and x.fv & a.fv and x.data[1] is not l}
    for x in others:
        m = x.data[1]
        if any(v.kind in ("b", "t", "l") for v in x.fv):
            continue
        val = None
        if kind == "ge":
            f = l if holds else -l - 1   # f >= 0
            d, e = bounds(m - f), bounds(m + f)
            if d[0] is not None and d[0] >= (1 if x.data[0] == "eq" else 0):
                val = ZERO if x.data[0] == "eq" else UNIT
            elif e[1] is not None and e[1] < 0:
                val = ZERO
        elif not holds and x.data[0] == "ge":
            # l != 0: l >= 0 is l - 1 >= 0
            for s in (l, -l):
                if m == s:
                    y = iv_ge(s - 1)
                    t = _set_atom(t, x, y) if x not in {w for k in y.m for w, _ in k[1]} else t
        if val is not None:
            t = _set_atom(t, x, val)
    return t


def align_sums(t):
    """t with one of its sums moved by one place or given one term more or less, so that it merges with another."""
    if len(t.m) > 80 or sum(1 for bv, _ in t.m if bv) < 2:
        return None
    for (bv, fs), c in t.m.items():
        for v in bv:
            if any(v in w.ext.vars() for w in bv) or v.ext.is_const() and v.ext.k <= 64:
                continue
            ren, fresh = _unbind(bv)
            u = ren.pop(v).vars()[0]
            rest = [w for w in fresh if w is not u]

            def at(i):
                r = rebuild_mono((), fs, {**ren, v: Lin.of(i)})
                for w in rest:
                    r = bsum(r, w)
                return r
            for shift in (0, 1, -1):
                for more in (1, 0, -1):
                    if shift == more == 0:
                        continue
                    # Sum_{i<n} f(i) = Sum_{j<n+more} f(j - shift) + (terms at the ends)
                    _fresh[0] += 1
                    w = Var("t", _fresh[0], v.ext + more)
                    lo = lmin(v.ext + more)
                    if lo is None or lo < 0:
                        continue
                    r = bsum(at(Lin.of(w) - shift), w)
                    if len(r.m) != 1:
                        continue
                    (key, _), = r.m.items()
                    if not key[0] or key == (bv, fs) or key not in t.m:
                        continue
                    ends = ZERO
                    if shift > 0:
                        ends = ends - at(Lin.of(-1))
                    if shift < 0:
                        ends = ends + at(Lin())
                    # the new sum ends at i = n + more - 1 - shift
                    d = more - shift
                    for q in range(abs(d)):
                        ends = ends + (at(v.ext + q).scale(-F1) if d > 0 else at(v.ext - 1 - q))
                    return t + (r + ends - T({(bv, fs): F1})).scale(c)
    # all the sums over one range together
    exts = []
    for bv, _ in t.m:
        if len(bv) == 1 and bv[0].ext not in exts:
            exts.append(bv[0].ext)
    for x in exts[:4]:
        group = [(bv, fs, c) for (bv, fs), c in t.m.items() if len(bv) == 1 and bv[0].ext == x]
        for more in (1, -1):
            lo = lmin(x + more)
            if lo is None or lo < 0 or x + more not in exts:
                continue
            for shift in (0, more):
                _fresh[0] += 1
                w = Var("t", _fresh[0], x + more)
                moved = ends = ZERO
                for bv, fs, c in group:
                    def at(i):
                        return rebuild_mono((), fs, {bv[0]: Lin.of(i)}).scale(c)
                    moved = moved + at(Lin.of(w) - shift)
                    # Sum_{i<n} f(i) = Sum_{j<n+more} f(j - shift) + (the terms at one end)
                    if shift > 0:
                        ends = ends - at(Lin.of(-1))
                    elif shift < 0:
                        ends = ends + at(Lin())
                    else:
                        ends = ends + (at(x).scale(-F1) if more > 0 else at(x - 1))
                r = t - T({(bv, fs): c for bv, fs, c in group}) + bsum(moved, w) + ends
                if sum(1 for bv, _ in r.m if bv) < sum(1 for bv, _ in t.m if bv):
                    return r
    return None


def _set_atom(t, a, val):
    out = {}
    acc = ZERO
    for (bv, fs), c in t.m.items():
        if any(x is a for x, _ in fs):
            if not val.m:
                continue
            rest = tuple((x, e) for x, e in fs if x is not a)
            part = T({(bv, rest): c})
            acc = acc + (part if val is UNIT else part * val)
        else:
            out[(bv, fs)] = c
    return T(out) + acc


CONG_KINDS = {"fn", "exp", "cmp", "carry", "poly"}


def unify_congruent(t):
    """Merge two atoms whose arguments are semantically (not syntactically) equal."""
    top = []
    for k in t.m:
        for a, _ in k[1]:
            if a.kind in CONG_KINDS and a not in top:
                top.append(a)
    top.sort(key=lambda a: a.id)
    if len(top) > 300:
        return None
    for i in range(len(top)):
        for j in range(i):
            a, b = top[j], top[i]
            if a.kind == b.kind and _cong(a.data, b.data):
                def same(x):
                    return T._of_atom(a) if x is b else None
                same.atoms = True   # an atom for an atom, with the same bound variables
                return t.replace(same)
    return None


def _cong(x, y):
    if isinstance(x, T) and isinstance(y, T):
        return x == y or is_zero(x - y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_cong(p, q) for p, q in zip(x, y))
    return type(x) == type(y) and x == y


# --------------------------------------------------------------------------------- printing


def show_atom(a):
    k, d = a.kind, a.data
    if k == "sym":
        return d[0] + ("[" + ",".join(map(repr, d[1])) + "]" if d[1] else "")
    if k == "var":
        return repr(d[0])
    if k == "prime":
        return str(d[0])
    if k == "poly":
        return "(" + show(d[0]) + ")"
    if k == "exp":
        return "exp(" + show(d[0]) + ")"
    if k == "iv":
        return f"[{d[1]!r}{'>=' if d[0] == 'ge' else '=='}0]"
    if k == "cmp":
        return f"[{show(d[1])}{'>=' if d[0] == 'ge' else '=='}0]"
    return k + show_data(d)


def show_data(d):
    if isinstance(d, tuple):
        if d and d[0] == "lam":
            return "\\" + ",".join(map(repr, d[1])) + "." + show(d[2])
        return "(" + ",".join(show_data(x) for x in d) + ")"
    if isinstance(d, T):
        return show(d)
    return str(d) if not isinstance(d, Lin) else repr(d)


def show(t, limit=40):
    if not t.m:
        return "0"
    parts = []
    for (bv, fs), c in sorted(t.m.items(), key=lambda q: mono_order(q[0]))[:limit]:
        f = "*".join(show_atom(a) + (f"^{e}" if e != 1 else "") for a, e in fs)
        s = ""
        if bv:
            s = "Sum_{" + ",".join(f"{v!r}<{v.ext!r}" for v in bv) + "} "
        if not f:
            parts.append(str(c))
        else:
            parts.append((f"{c}*" if c != 1 else "") + s + f)
    if len(t.m) > limit:
        parts.append(f"...({len(t.m)} monomials)")
    return " + ".join(parts)
