"""
Numbers for terms: a residual the prover cannot reduce to zero is evaluated at random points before it counts as a
difference.  Unknown functions and loop carries get arbitrary (hashed) values, so a residual that is zero here may be
an identity the normal form does not know; it then stays undecided instead of being reported.
"""
import random
import zlib
from decimal import Decimal, getcontext, localcontext

from . import terms as TT

DIGITS = 80


class Unable(Exception):
    pass


class Point:
    """Values of all the variables, symbols and functions at one random point."""

    def __init__(self, seed, budget):
        self.seed = seed
        self.env = {}
        self.budget = budget
        self.cache = {}
        self.seen = set()   # monomials of the residual that are not zero here

    def rnd(self, *key):
        return random.Random(f"{self.seed}:{zlib.crc32(repr(key).encode())}:{key!r}"[:4000])

    def real(self, *key):
        return Decimal(self.rnd(*key).randint(-3 * 10 ** 12, 3 * 10 ** 12)) / 10 ** 12

    def var(self, v, env):
        if v in env:
            return env[v]
        if v.kind == "prod":
            r = 1
            for w in v.name:
                r *= self.var(w, env)
            return r
        if v not in self.env:
            r = self.rnd("var", v.kind, str(v.name), v.id)
            if v.kind == "dim":
                lo = 1 if v.lo is None else v.lo
                self.env[v] = r.randint(lo, lo + (2, 4, 8)[self.seed % 3])
            elif v.ext is not None and v.kind not in ("b", "l"):
                n = self.lin(v.ext, env)
                if n <= 0:
                    raise Unable("empty range")
                self.env[v] = r.randrange(n)
            else:
                raise Unable(f"variable {v!r}")
        return self.env[v]

    def lin(self, l, env):
        return l.k + sum(a * self.var(v, env) for v, a in l.c)

    def sum(self, bv, env, f):
        if not bv:
            self.budget -= 1
            if self.budget < 0:
                raise Unable("too many terms")
            return f(env)
        n = self.lin(bv[0].ext, env)
        out = (Decimal(0), Decimal(0))
        for i in range(n):
            a, b = self.sum(bv[1:], {**env, bv[0]: i}, f)
            out = out[0] + a, out[1] + b
        return out

    def term(self, t, env):
        """(value, sum of the magnitudes added up)"""
        val = mag = Decimal(0)
        for (bv, fs), c in t.m.items():
            def mono(e, fs=fs):
                r = Decimal(1)
                for a, x in fs:
                    y = self.atom(a, e)
                    if not y:
                        if x < 0:
                            raise Unable("division by zero")
                        return Decimal(0), Decimal(0)
                    r *= self.power(y, x)
                return r, abs(r)
            v, m = self.sum(bv, env, mono)
            c = self.const(c)
            if m and not env:
                self.seen.add((bv, fs))
            val += c * v
            mag += abs(c) * m
        return val, mag

    def const(self, c):
        return Decimal(c.numerator) / Decimal(c.denominator)

    def power(self, y, x):
        x = TT.F(x)
        if x.denominator == 1:
            return y ** int(x)
        if y < 0:
            raise Unable("root of a negative number")
        return y ** self.const(x)

    def atom(self, a, env):
        key = (a, tuple(sorted((v.id, env[v] if v in env else None) for v in a.fv))) if a.fv else (a, ())
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = self._atom(a, env)
        return r

    def _atom(self, a, env):
        k, d = a.kind, a.data
        if k == "iv":
            n = self.lin(d[1], env)
            return Decimal(int(n >= 0 if d[0] == "ge" else n == 0))
        if k == "cmp":
            v, m = self.term(d[1], env)
            if abs(v) <= m * Decimal(10) ** -(DIGITS // 2) and d[0] == "ge":
                raise Unable("comparison at equality")
            return Decimal(int(v >= 0 if d[0] == "ge" else abs(v) <= m * Decimal(10) ** -(DIGITS // 2)))
        if k == "var":
            return Decimal(self.lin(TT.Lin.of(d[0]), env))
        if k == "prime":
            return Decimal(d[0])
        if k == "poly":
            return self.term(d[0], env)[0]
        if k == "exp":
            return self.term(d[0], env)[0].exp()
        if k == "sym":
            name, idx = d
            idx = [self.lin(i, env) for i in idx]
            if name in TT.SYMMETRIC:
                idx[-2:] = sorted(idx[-2:])
            r = self.real("sym", str(name), tuple(idx))
            if name in TT.POSITIVE or name in TT.PDIAG and idx[-1] == idx[-2]:
                r = abs(r) + Decimal(10) ** -3
            return r
        if k in ("fn", "uf", "carry", "key"):
            if k == "fn" and isinstance(d[0], tuple):
                raise Unable("partial theory")
            if k == "uf":
                d = d[:3] + (tuple(sorted((q, tuple(self.lin(i, env) for i in js)) for q, js in d[3])),)
            return self.real(k, self.data(d, env))
        raise Unable(k)

    def data(self, d, env):
        """The value of an argument, as a key."""
        if isinstance(d, tuple):
            if d and d[0] == "lam":
                def table(vs, e):
                    if not vs:
                        return self.data(d[2], e)
                    n = self.lin(vs[0].ext, e)
                    if n > 40:
                        raise Unable("large argument")
                    return tuple(table(vs[1:], {**e, vs[0]: i}) for i in range(n))
                return table(d[1], env)
            return tuple(self.data(x, env) for x in d)
        if isinstance(d, TT.T):
            self.budget -= 1
            if self.budget < 0:
                raise Unable("too many terms")
            v, m = self.term(d, env)
            if abs(v) <= m * Decimal(10) ** -(DIGITS // 2):
                return "0"
            with localcontext() as c:
                c.prec = 20
                return str((+v).normalize())
        if isinstance(d, TT.Lin):
            return self.lin(d, env)
        return str(d)


def vanishes(t, points=12, budget=60000):
    """True if t is zero at random points at which each of its monomials is non-zero at least once, False if it is not
    zero at one of them, None if not decided."""
    if not t.m:
        return True
    done = 0
    seen = {k for k in t.m if not TT.feasible(frozenset(
        l for a, _ in k[1] if a.kind == "iv" and not a.fv & set(k[0])
        for l in ((a.data[1],) if a.data[0] == "ge" else (a.data[1], -a.data[1]))))}
    saved = getcontext().prec
    getcontext().prec = DIGITS
    try:
        for seed in range(20 * points):
            try:
                p = Point(seed, budget)
                v, m = p.term(t, {})
            except Unable:
                continue
            except (ArithmeticError, ValueError, KeyError):
                continue
            if abs(v) > m * Decimal(10) ** -(DIGITS // 2):
                return False
            done += 1
            seen |= p.seen & set(t.m)
            if done >= points and len(seen) == len(t.m):
                return True
    finally:
        getcontext().prec = saved
    return True if done >= 4 and len(seen) == len(t.m) else None
