"""
S22: the progress bar is transparent and counts every iteration.

The real module is executed with a symbolic number of iterations n and a symbolic iteration number k (its
imports of jax and tqdm give recording stand-ins: cond runs both branches under their path conditions, taps
record a callback with its path condition, the bar records open/update/close).  The contract of one
iteration becomes obligations for an SMT solver: the wrapped body's result is the body's result, the bar is
opened at k = 0 only and first, closed at k = n-1 only and last, and the invariant
    U(k) = number counted before iteration k,   U(0) = 0,  U(k+1) = U(k) + amount(k),  U(n) = n
holds for the ghost U(k) = min(n, r*ceil(k/r)), r = amount(0).  A failed obligation is replayed by running the
real scan in JAX with a recording tqdm; only a failing real run, or a solver model confirmed by one, alarms.
"""
import builtins
import itertools
import json
import os
import subprocess
import time
import types

import numpy as np

ASSUME = ["S22: 1 <= num_samples < 2^31, so that int(n / 1000) in floats is floor division (a quotient by an integer below "
          "2^53 never rounds up to the next integer for n < 2^40)",
          "S22: host callbacks run once each, in program order, with the tapped value (contract of host_callback.id_tap)",
          "S22: tqdm: update(a) adds a to the count, close ends the bar"]


def contracts():
    return []


class NoContract(Exception):
    """The stand-ins do not cover what the code does."""


# ------------------------------------------------------------------- symbolic values

class S:
    __slots__ = ("op", "a", "sort")

    def __init__(self, op, a, sort):
        self.op, self.a, self.sort = op, a, sort

    def _b(self, o, op, sort=None, rev=False):
        o = lift(o)
        if o is None:
            return NotImplemented
        x, y = (o, self) if rev else (self, o)
        if op in ("and", "or") and not (x.sort == y.sort == "B"):
            raise NoContract("bitwise operation on integers")
        s = sort or ("R" if "R" in (x.sort, y.sort) else "I")
        if sort == "B" and op not in ("and", "or") and "R" in (x.sort, y.sort):
            x, y = real(x), real(y)
        return mk(op, (x, y), s)

    __add__ = lambda s, o: s._b(o, "+")
    __radd__ = lambda s, o: s._b(o, "+", rev=True)
    __sub__ = lambda s, o: s._b(o, "-")
    __rsub__ = lambda s, o: s._b(o, "-", rev=True)
    __mul__ = lambda s, o: s._b(o, "*")
    __rmul__ = lambda s, o: s._b(o, "*", rev=True)
    __neg__ = lambda s: lift(0) - s
    __lt__ = lambda s, o: s._b(o, "<", "B")
    __le__ = lambda s, o: s._b(o, "<=", "B")
    __gt__ = lambda s, o: s._b(o, "<", "B", rev=True)
    __ge__ = lambda s, o: s._b(o, "<=", "B", rev=True)
    __and__ = lambda s, o: s._b(o, "and", "B")
    __rand__ = lambda s, o: s._b(o, "and", "B")
    __or__ = lambda s, o: s._b(o, "or", "B")
    __ror__ = lambda s, o: s._b(o, "or", "B")
    __hash__ = None

    def __invert__(self):
        if self.sort != "B":
            raise NoContract("bitwise operation on integers")
        return mk("not", (self,), "B")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._b(o, "=", "B")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return ~self._b(o, "=", "B")

    def _divisor(self, o, op, rev):
        o = lift(o)
        x, y = (o, self) if rev else (self, o)
        if "I" != x.sort or "I" != y.sort:
            raise NoContract("integer division of a real")
        need(y > 0)
        return mk(op, (x, y), "I")

    __floordiv__ = lambda s, o: s._divisor(o, "div", False)
    __rfloordiv__ = lambda s, o: s._divisor(o, "div", True)
    __mod__ = lambda s, o: s._divisor(o, "mod", False)
    __rmod__ = lambda s, o: s._divisor(o, "mod", True)
    __divmod__ = lambda s, o: (s // o, s % o)

    def __truediv__(self, o):
        o = lift(o)
        if self.sort == "I" and o.sort == "I" and o.op == "c" and o.a > 0:
            return mk("/", (self, o), "R")
        raise NoContract("division")

    def __bool__(self):
        return RUN.decide(self if self.sort == "B" else (self != 0))

    def __index__(self):
        raise NoContract("a symbolic integer used as a concrete one")

    __int__ = __index__

    def __float__(self):
        raise NoContract("a symbolic integer used as a concrete one")

    def __format__(self, spec):
        return "<n>"

    __str__ = __repr__ = lambda s: "<n>"
    shape, ndim = (), 0

    def astype(self, t):
        return to_int(self)


def mk(op, a, sort):
    if op == "and":
        a = [x for x in a if not (x.op == "c" and x.a is True)]
        if any(x.op == "c" for x in a):
            return S("c", False, "B")
        if len(a) < 2:
            return a[0] if a else S("c", True, "B")
        a = tuple(a)
    return S(op, tuple(a), sort)


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, (bool, np.bool_)):
        return S("c", bool(x), "B")
    if isinstance(x, (int, np.integer)):
        return S("c", int(x), "I")
    if isinstance(x, float) and x == int(x):
        return S("c", int(x), "I")
    if isinstance(x, (np.ndarray, np.generic)) and np.shape(x) == () and float(x) == int(x):
        return S("c", int(x), "I")
    raise NoContract(f"operation on {type(x).__name__}")


def real(x):
    return x if x.sort == "R" else S("toreal", (x,), "R")


def ite(c, x, y):
    if x is y:
        return x
    if isinstance(x, (tuple, list)) and type(x) is type(y) and len(x) == len(y):
        return type(x)(ite(c, p, q) for p, q in zip(x, y))
    if isinstance(x, dict) and isinstance(y, dict) and x.keys() == y.keys():
        return {k: ite(c, x[k], y[k]) for k in x}
    if isinstance(x, Token) or isinstance(y, Token):
        raise NoContract("conditional result")
    x, y = lift(x), lift(y)
    if "B" in (x.sort, y.sort) and x.sort != y.sort:
        raise NoContract("mixed conditional")
    if "R" in (x.sort, y.sort):
        x, y = real(x), real(y)
    return S("ite", (lift(c), x, y), x.sort)


def to_int(x, *a):
    if not isinstance(x, S):
        return int(x, *a)
    if x.sort == "I":
        return x
    if x.sort == "B":
        return ite(x, 1, 0)
    if x.op == "/":
        need(x.a[0] >= 0)
        return x.a[0] // x.a[1]
    raise NoContract("truncation of a real")


def smt(x):
    if x.op == "c":
        if x.sort == "B":
            return "true" if x.a else "false"
        return str(x.a) if x.a >= 0 else f"(- {-x.a})"
    if x.op == "v":
        return x.a
    if x.op == "toreal":
        return f"(to_real {smt(x.a[0])})"
    if x.op == "/":
        return f"(/ (to_real {smt(x.a[0])}) {x.a[1].a}.0)"
    return f"({x.op} {' '.join(smt(y) for y in x.a)})"


def ev(x, env):
    if x.op == "c":
        return x.a
    if x.op == "v":
        return env[x.a]
    a = [ev(y, env) for y in x.a]
    return {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "<": lambda: a[0] < a[1],
            "<=": lambda: a[0] <= a[1], "=": lambda: a[0] == a[1], "and": lambda: np.logical_and.reduce(np.broadcast_arrays(*a)),
            "or": lambda: np.logical_or(a[0], a[1]), "not": lambda: np.logical_not(a[0]),
            "div": lambda: np.floor_divide(a[0], np.maximum(a[1], 1)), "mod": lambda: np.mod(a[0], np.maximum(a[1], 1)),
            "/": lambda: a[0] / a[1], "toreal": lambda: a[0], "ite": lambda: np.where(a[0], a[1], a[2])}[x.op]()


# ------------------------------------------------------------------- one symbolic run

class Token:
    """An opaque value of the user: nothing may be done with it but pass it on."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Run:
    def __init__(self, script):
        self.script, self.at = script, 0
        self.pc = []        # conditions on n of this Python path
        self.guard = []     # conditions of the traced branches we are in
        self.side = []      # (path, guard, claim): divisors positive
        self.taps = []      # (guard, callback)
        self.log = None
        self.hyp = []

    def decide(self, c):
        if "k" in names(c):
            raise NoContract("a traced value used as a Python bool")
        if self.at == len(self.script):
            self.script.append(True)
        v = self.script[self.at]
        self.at += 1
        self.pc.append(c if v else ~c)
        return v


RUN = None


def need(c):
    if not (c.op == "<" and all(y.op == "c" for y in c.a) and c.a[0].a < c.a[1].a):
        RUN.side.append((list(RUN.pc) + list(RUN.hyp) + list(RUN.guard), c))


def names(x):
    if x.op == "v":
        return {x.a}
    return set().union(*(names(y) for y in x.a)) if x.op != "c" else set()


def cond(pred, tf, ff, *ops, operand=Ellipsis, linear=None):
    if operand is not Ellipsis:
        ops = (operand,)
    pred = lift(pred)
    if pred.sort != "B":
        pred = pred != 0
    RUN.guard.append(pred)
    x = tf(*ops)
    RUN.guard[-1] = ~pred
    y = ff(*ops)
    RUN.guard.pop()
    return ite(pred, x, y)


def tap(f, arg, *, result=None, **kw):
    RUN.taps.append((list(RUN.guard), lambda: f(arg, ())))
    return arg if result is None else result


def debug_callback(f, *a, ordered=False, **kw):
    if not ordered:
        raise NoContract("unordered callback")
    RUN.taps.append((list(RUN.guard), lambda: f(*a, **kw)))


class Bar:
    def __init__(self, *a, **kw):
        RUN.log.append(("open", lift(1)))

    def update(self, n=1):
        RUN.log.append(("update", lift(n)))
        return True

    def close(self):
        RUN.log.append(("close", lift(1)))

    def set_description(self, *a, **kw):
        pass

    set_description_str = set_postfix = set_postfix_str = refresh = display = clear = set_description


class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise NoContract(f"{self.__name__}.{k}")


def pick(cs, xs, default):
    out = default
    for c, x in reversed(list(zip(cs, xs))):
        out = ite(lift(c), x, out)
    return out


def stand_ins():
    lax = Mod("lax", cond=cond, select=lambda c, x, y: ite(lift(c), x, y), rem=lambda x, y: lift(x) % y,
              eq=lambda x, y: lift(x) == y, ne=lambda x, y: lift(x) != y, lt=lambda x, y: lift(x) < y,
              bitwise_and=lambda x, y: lift(x) & y, div=lambda x, y: lift(x) // y)
    jnp = Mod("jnp", where=lambda c, x, y: ite(lift(c), x, y), logical_and=lambda x, y: lift(x) & y,
              logical_or=lambda x, y: lift(x) | y, logical_not=lambda x: ~lift(x), equal=lambda x, y: lift(x) == y,
              not_equal=lambda x, y: lift(x) != y, mod=lambda x, y: lift(x) % y, remainder=lambda x, y: lift(x) % y,
              floor_divide=lambda x, y: lift(x) // y, minimum=lambda x, y: ite(lift(x) <= y, x, y),
              maximum=lambda x, y: ite(lift(x) >= y, x, y), asarray=lambda x, *a, **k: x, array=lambda x, *a, **k: x,
              select=pick, int32=to_int, int64=to_int)
    hcb = Mod("host_callback", id_tap=tap)
    exp = Mod("experimental", host_callback=hcb)
    jax = Mod("jax", lax=lax, numpy=jnp, experimental=exp, debug=Mod("debug", callback=debug_callback))
    auto = Mod("auto", tqdm=Bar, trange=lambda n, **k: Bar())
    tq = Mod("tqdm", tqdm=Bar, auto=auto, std=auto, trange=auto.trange)
    return {"jax": jax, "jax.lax": lax, "jax.numpy": jnp, "jax.experimental": exp, "jax.experimental.host_callback": hcb,
            "jax.debug": jax.debug, "tqdm": tq, "tqdm.auto": auto, "tqdm.std": auto}


def load(src, path):
    mods = stand_ins()

    def imp(name, g=None, l=None, fromlist=(), level=0):
        if level == 0 and name.split(".")[0] in ("jax", "tqdm"):
            if name not in mods:
                raise NoContract(f"import {name}")
            return mods[name] if fromlist else mods[name.split(".")[0]]
        return builtins.__import__(name, g, l, fromlist, level)

    b = dict(vars(builtins))
    b["__import__"] = imp
    b["int"] = IntType
    b["range"] = lambda *a: Token("range") if any(isinstance(x, S) for x in a) else range(*a)
    b["isinstance"] = lambda x, t: isinstance(x, int if t is IntType else t) or (t is IntType and isinstance(x, S))
    ns = {"__builtins__": b, "__name__": "progress_bar", "__file__": path}
    exec(compile(src, path, "exec"), ns)
    return ns


class IntType(int):
    def __new__(cls, x=0, *a):
        return to_int(x, *a)


def paths(src, path, form):
    """All Python paths of: build the bar for n, run iteration 0, run iteration k (1 <= k < n)."""
    global RUN
    n, k = S("v", "n", "I"), S("v", "k", "I")
    todo, out = [[]], []
    while todo:
        RUN = r = Run(list(todo.pop()))
        given = len(r.script)
        ns = load(src, path)
        calls = []

        def body(c, x):
            calls.append((c, x))
            r.taps.append((list(r.guard), lambda: r.log.append(("body", lift(1)))))
            return (Token("carry'"), (Token("out1"), {"o": Token("out2")}))

        results = []
        body_ = lambda c, x: results.append(body(c, x)) or results[-1]
        wrapped = ns["progress_bar"](n)(body_)
        steps = []
        for i in (lift(0), k):
            r.hyp = [k >= 1, k < n] if i is k else []
            x = i if form == "numbers" else (i, Token("x1"), Token("x2"))
            c = (Token("carry"), Token("carry2"))
            del calls[:], results[:]
            r.taps = []
            y = wrapped(c, x)
            same = (len(calls) == 1 and calls[0][0] is c and identical(calls[0][1], x) and identical(y, results[0]))
            ev_ = []
            for g, f in r.taps:
                r.log = []
                f()
                ev_ += [(mk("and", g, "B") if g else lift(True), kind, v) for kind, v in r.log]
            steps.append((same, ev_))
        out.append((list(r.pc), steps, list(r.side)))
        for j in range(given, len(r.script)):
            todo.append(r.script[:j] + [False])
        if len(out) > 40:
            raise NoContract("too many paths")
    return out


def identical(a, b):
    if a is b:
        return True
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(identical(a[q], b[q]) for q in a)
    return False


# ------------------------------------------------------------------- obligations

def total(evs, kind):
    t = lift(0)
    for g, k, v in evs:
        if k == kind:
            t = t + (v if g.op == "c" and g.a is True else ite(g, v, 0))
    return t


def implies(a, b):
    return ~lift(a) | b


def obligations(pc, steps):
    n, k = S("v", "n", "I"), S("v", "k", "I")
    (same0, e0), (same1, e1) = steps
    pre0 = pc + [n >= 1]
    pre = pc + [k >= 1, k < n]
    yield "the wrapped body returns the body's result, called once on its own arguments", [], lift(same0 and same1)
    yield "opened once at iteration 0", pre0, total(e0, "open") == 1
    yield "not opened again", pre, total(e1, "open") == 0
    yield "closed once after the last iteration (n = 1)", pre0, total(e0, "close") == ite(lift(n == 1), 1, 0)
    yield "closed once after the last iteration", pre, total(e1, "close") == ite(lift(k == n - 1), 1, 0)

    def order(es):
        bad = [lift(False)]
        for i, (g, a, v) in enumerate(es):
            for h, b, w in es[i + 1:]:
                if (b == "open" and a in ("update", "close")) or (a == "close" and b == "update"):
                    bad.append(mk("and", (g, h), "B"))
        return bad
    for es, p, w in ((e0, pre0, "at iteration 0"), (e1, pre, "later")):
        b = order(es)
        t = lift(True)
        for x in b[1:]:
            t = t & ~x
        yield f"open before the updates, close after them, {w}", p, t
    yield "updates are not negative", pre, total(e1, "update") >= 0
    # the counting invariant
    r, m, q, s = (S("v", v, "I") for v in ("r", "m", "q", "s"))
    ghost = [r.__eq__(total(e0, "update"))]
    # q, s: quotient and remainder of k by r
    div = [r > 0, k.__eq__(r * q + s), s >= 0, s < r]
    ceil = lambda q, s: q + ite(lift(s == 0), 0, 1)
    U = lambda q, s: ite(lift(n <= r * ceil(q, s)), n, r * ceil(q, s))
    yield "invariant: the first update is positive", pre0 + ghost, r > 0
    yield "invariant: holds after iteration 0", pre0 + ghost, total(e0, "update") == ite(lift(n <= r), n, r)
    nxt = ite(lift(s + 1 == r), U(q + 1, lift(0)), U(q, s + 1))
    yield "invariant: kept by iteration k", pre + ghost + div, nxt == U(q, s) + total(e1, "update")
    end = [r > 0, n.__eq__(r * q + s), s >= 0, s < r]
    yield "invariant: n at the end", pre0 + ghost + end, U(q, s) == n
    x, y = S("v", "x", "I"), S("v", "y", "I")
    yield "lemma: multiplication by a positive integer is monotone", [r > 0, x > y], r * x >= r * y + r


def gen_divs(fs):
    """Replace div/mod by fresh quotients and remainders with their defining facts."""
    tab, facts = {}, []

    def go(x):
        if x.op in ("c", "v"):
            return x
        a = tuple(go(y) for y in x.a)
        if x.op in ("div", "mod"):
            key = (smt(a[0]), smt(a[1]))
            if key not in tab:
                i = len(tab)
                d, m = S("v", f"d{i}", "I"), S("v", f"m{i}", "I")
                tab[key] = (d, m, a)
                # where the divisor is positive (proved separately)
                facts.append(implies(a[1] > 0, (a[0].__eq__(a[1] * d + m)) & (m >= 0) & (m < a[1])))
            return tab[key][0 if x.op == "div" else 1]
        return S(x.op, a, x.sort)
    return [go(f) for f in fs], facts, tab


def lemmas(tab, quot):
    """Uniqueness of division, instantiated at pairs of quotients by the same divisor: if x = r d + m = ... then
    r (d - e) = difference, and d > e gives r d >= r e + r (products monotone in an integer factor)."""
    out = []
    ds = [(a[1], d) for d, m, a in tab.values()] + quot
    for (r1, d1), (r2, d2) in itertools.combinations(ds, 2):
        # monotonicity of multiplication by a positive factor, for both factors
        for x, y in ((d1, d2), (d2, d1)):
            out.append(implies((r1.__eq__(r2)) & (r1 > 0) & (x > y), r1 * x >= r1 * y + r1))
    return out


SOLVERS = [("z3-new", ["z3-new", "-in", "-T:20"]), ("z3", ["z3", "-in", "-T:20"]),
           ("cvc5", ["cvc5", "--lang=smt2", "--tlimit=20000", "--produce-models", "-"])]


def solve(hyps, claim):
    """('unsat', solver) when the claim follows; ('sat', n) with a model's n; ('unknown', why)."""
    fs, facts, tab = gen_divs(list(hyps) + [~lift(claim)])
    vs = set().union(*(names(f) for f in fs + facts))
    quot = [(S("v", "r", "I"), S("v", "q", "I"))] if "q" in vs else []
    if quot:
        quot.append((quot[0][0], quot[0][1] + 1))
    lem = lemmas(tab, quot)
    vs |= set().union(set(), *(names(f) for f in lem))
    script = "(set-option :produce-models true)\n(set-logic ALL)\n"
    script += "".join(f"(declare-const {v} Int)\n" for v in sorted(vs | {"n"}))
    script += "".join(f"(assert {smt(f)})\n" for f in facts + lem + fs)
    script += "(assert (< n 2147483648))\n(check-sat)\n(get-value (n))\n"
    why = []
    for name, cmd in SOLVERS:
        try:
            out = subprocess.run(cmd, input=script, capture_output=True, text=True, timeout=40).stdout
        except Exception as e:
            why.append(f"{name}: {e}")
            continue
        w = out.split("\n")[0].strip()
        if w == "unsat":
            return "unsat", name
        if w == "sat":
            try:
                return "sat", int(out.split("n")[-1].strip(" )\n"))
            except ValueError:
                return "sat", None
        why.append(f"{name}: {w or 'no answer'}")
    return "unknown", "; ".join(why)


# ------------------------------------------------------------------- running the real thing

class RealBar:
    logs = []

    def __init__(self, *a, **kw):
        self.logs.append(("open", 1))

    def update(self, n=1):
        self.logs.append(("update", float(n)))

    def close(self):
        self.logs.append(("close", 1))

    def set_description(self, *a, **kw):
        pass

    set_description_str = set_postfix = set_postfix_str = refresh = display = clear = set_description


def real_run(n, form, seed=0):
    """Scan with and without the bar in JAX; returns what is wrong, or None."""
    import jax
    import jax.numpy as jnp
    from jax.experimental import host_callback
    import importlib
    M = importlib.import_module("bayesian_sde_solver.utils.progress_bar")
    if hasattr(M, "tqdm"):
        M.tqdm = RealBar
    import tqdm.auto
    tqdm.auto.tqdm = RealBar
    RealBar.logs.clear()

    def body(c, x):
        i, z = x if isinstance(x, tuple) else (x, 0.25 * x)
        c = (0.5 * c[0] + z, c[1] + i)
        return c, {"a": c[0] * c[1], "b": (i, jnp.stack([z, c[0]]))}

    init = (jnp.asarray(0.3), jnp.asarray(0))
    ks = jnp.arange(n)
    xs = ks if form == "numbers" else (ks, jax.random.normal(jax.random.PRNGKey(seed), (n,)))
    plain = jax.lax.scan(body, init, xs)
    barred = jax.lax.scan(M.progress_bar(n)(body), init, xs)
    jax.block_until_ready(barred)
    host_callback.barrier_wait()
    jax.effects_barrier()
    logs = list(RealBar.logs)
    same = jax.tree_util.tree_structure(plain) == jax.tree_util.tree_structure(barred) and all(
        x.shape == y.shape and x.dtype == y.dtype and np.array_equal(np.asarray(x), np.asarray(y))
        for x, y in zip(*map(jax.tree_util.tree_leaves, (plain, barred))))
    if not same:
        return "the wrapped scan returns something else than the plain one", logs[:5]
    kinds = [k for k, _ in logs]
    if kinds.count("open") != 1 or kinds[0] != "open":
        return f"bar opened {kinds.count('open')} times, first event {kinds[:1]}", logs[:5]
    if kinds.count("close") != 1 or kinds[-1] != "close":
        return f"bar closed {kinds.count('close')} times, last event {kinds[-1:]}", logs[-5:]
    s = sum(v for k, v in logs if k == "update")
    if s != n:
        return f"updates add up to {s:g} after {n} iterations", logs[-5:]
    return None


FORMS = ("numbers", "tuples")


def check(mods, seed, tier):
    import importlib
    M = importlib.import_module("bayesian_sde_solver.utils.progress_bar")
    path = M.__file__
    src = open(path).read()
    info = dict(functions=["progress_bar.progress_bar", "_update_progress_bar", "close_tqdm", "wrapper_progress_bar"], obligations=[],
                back_ends={}, notes=[])
    fails, want = [], []
    total_ob = done = 0
    suspects = []
    secs = 0.0
    for form in FORMS:
        try:
            ps = paths(src, path, form)
        except Exception as e:
            info["notes"].append(f"{form}: not executed symbolically: {type(e).__name__}: {e}")
            continue
        for pc, steps, side in ps:
            obs = list(obligations(pc, steps)) + [("divisor is positive", h + [S("v", "n", "I") >= 1], c) for h, c in side]
            tag = " and ".join(smt(c) for c in pc) or "every n"
            for name, hyp, claim in obs:
                t = time.time()
                r, w = solve(hyp, claim)
                secs += time.time() - t
                info["obligations"].append(dict(name=f"scan over {form}, {tag}: {name}", result=r, by=w, secs=round(time.time() - t, 3)))
                total_ob += 1
                if r == "unsat":
                    done += 1
                    info["back_ends"][w] = info["back_ends"].get(w, 0) + 1
                    # the claim's negation must not follow from the same facts
                    if name.startswith("invariant") and solve(hyp, ~lift(claim))[0] == "unsat" and solve(hyp, lift(False))[0] != "unsat":
                        raise RuntimeError(f"vacuous obligation {name}")
                elif r == "sat" and w:
                    suspects.append((w, form, name))
        # every n up to a bound and around powers, by evaluating the recorded step
        ns_ = list(range(1, 2600 if tier == "quick" else 6000)) + [9999, 10000, 10001, 12345, 50001, 99999, 100000, 123457]
        ns_ += [int(x) for x in np.random.default_rng(seed).integers(2600, 200000, 8)]
        for n in ns_:
            env = {"n": n, "k": np.arange(1, max(n, 1))}
            for pc, steps, side in ps:
                if not all(ev(c, {"n": n}) for c in pc):
                    continue
                e0, e1 = steps[0][1], steps[1][1]
                tot = {q: float(np.sum(ev(total(e0, q), {"n": n}))) + float(np.sum(np.broadcast_to(ev(total(e1, q), env), (n - 1,)))) for q in
                       ("open", "close", "update")}
                if tot != {"open": 1.0, "close": 1.0, "update": float(n)}:
                    suspects.append((n, form, "count by evaluation"))
            if len(suspects) > 12:
                break
    # real runs
    sizes = [1, 2, 3, 37, 1000, 1001, 1500, 1999, 2000, 2001, 2999, 3100]
    sizes += [int(np.random.default_rng(seed + 7).integers(4, 999))]
    runs = [(n, f) for n in sizes for f in FORMS] + [(n, f) for n, f, _ in sorted(suspects, key=lambda s: s[0])[:6] if n <= 3000000]
    nreal = 0
    for n, f in runs:
        try:
            bad = real_run(n, f, seed)
        except Exception as e:
            bad = (f"{type(e).__name__}: {e}", [])
        nreal += 1
        if bad:
            fails.append(dict(kind="failing input", obligation=f"progress bar over {f}: {bad[0].split(' ')[0]} {bad[0]}",
                              functions=info["functions"], num_samples=n, scan_input=f, detail=bad[0], events=str(bad[1]),
                              suspects=str(suspects[:10])))
            break
    info.update(real_runs=nreal, solver_seconds=round(secs, 3), suspects=len(suspects),
                bounded="real JAX scans with a recording tqdm at n in " + str(sizes))
    if os.environ.get("JXV_VERBOSE"):
        print(json.dumps(info, indent=1, default=str))
    return total_ob, done, fails, info


CHECKS = [check]
