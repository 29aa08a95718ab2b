"""
Driver: generate the obligations of a property's contracts from /repo's current source, discharge
them, replay the real code, decide, and write the evidence file.
"""
import ast
import hashlib
import pickle
import re
import signal
import subprocess
import sys
import tempfile
import threading

from .prove import *
from .value import vanishes
from . import prove as PV

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


class TimeUp(Budget):
    pass


class limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*a):
            raise TimeUp(f"time limit {self.s}s")
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def reset_engine():
    I.SCANS.clear()
    I.TAPS.clear()
    BRANCHES.clear()
    THRESHOLDS.clear()
    for names in (TT.POSITIVE, TT.SYMMETRIC, TT.PDIAG, TT.SYMCARRY):
        names.clear()
    TT._subst_cache.clear()
    TT._canon_cache.clear()


class Result:
    def __init__(self, c):
        self.c = c
        self.items = {}      # name -> dict(status, reason, residual, secs, sizes)
        self.trace = None    # why no trace at all
        self.failures = []   # numeric failures
        self.evals = 0
        self.canaries = 0
        self.canary_bad = []
        self.branches = []
        self.thresholds = []
        self.valued = False  # the code branches on values in Python
        self.consts = set()
        self.explored = []


def prove_item(sym, it, loopdims):
    """(ok, definite, message).  definite: a non-zero residual was computed (not a tool limit)."""
    name, kind, batch, data = it
    uni = Unifier()
    if kind == "law":
        ok, msg = prove_law(name, batch, data, loopdims, uni)
        return ok, True, msg, 1
    if kind == "keys":
        ok, msg = prove_distinct(data, batch)
        return ok, not ok and msg.startswith("key reused"), msg, len(data)
    n = 0
    for lhs, rhs in data:
        if lhs.shape != rhs.shape:
            return False, True, f"shape {lhs.shape} differs from contract {rhs.shape}", n
        for idx in arr_indices(lhs, rhs):
            n += 1
            t = lhs(*idx) - rhs(*idx)
            ok, res = prove_zero(t, idx, loopdims, uni)
            if not ok:
                definite = not rounding(res, lhs(*idx), rhs(*idx)) and not partial_theory(res) \
                    and vanishes(res) is not True
                return False, definite, f"index {idx}: residual {show(res)[:600]}", n
    return True, True, None, n


_pt = {}


def partial_theory(d):
    """The term contains values of kernels known only through some of their laws (matrix inverse, factors,
    matrix functions): a non-zero normal form is then no proof of a difference."""
    if isinstance(d, TT.T):
        return any(partial_theory(a) for bv, fs in d.m for a, _ in fs)
    if isinstance(d, tuple):
        return any(partial_theory(x) for x in d)
    if isinstance(d, TT.Atom):
        r = _pt.get(d)
        if r is None:
            r = _pt[d] = d.kind == "fn" and isinstance(d.data[0], tuple) or partial_theory(d.data)
        return r
    return False


def rounding(res, lhs, rhs):
    """The residual is within the rounding of float constants computed in Python by the code."""
    try:
        scale = max([abs(float(c)) for t in (lhs, rhs) for c in t.m.values()] or [0.0])
        return bool(res.m) and all(abs(float(c)) <= 1e-13 * scale for c in res.m.values())
    except (AttributeError, OverflowError, ValueError):
        return False


def canary_item(sym, it, loopdims):
    """The same obligation with the right-hand side shifted by 1 must be rejected."""
    name, kind, batch, data = it
    uni = Unifier()
    if kind == "law":
        lhs, mean, cov = data
        bad = Arr(mean.shape, lambda *i: mean(*i) + UNIT)
        ok, _ = prove_law(name, batch, [lhs, bad, cov], loopdims, uni)
        if ok:
            return False
        bad = Arr(cov.shape, lambda *i: cov(*i) + UNIT)
        ok, _ = prove_law(name, batch, [lhs, mean, bad], loopdims, uni)
        return not ok
    if kind == "keys":
        return not prove_distinct([data[0]] + data, batch + 1)[0]
    for lhs, rhs in data[:1]:
        for idx in arr_indices(lhs, rhs)[:1]:
            ok, _ = prove_zero(lhs(*idx) - rhs(*idx) + UNIT, idx, loopdims, uni)
            return not ok
    return False


def loop_dims(c, sym):
    if sym.dims is not None:
        return []
    return [v for k, v in ((k, I.dim_of(d)) for k, d in sym.ds.items()) for v in v.vars() if k in getattr(c, "loops", ("N",))]


def run_level(c, mods, dims, only, res, tlimit):
    """Try to discharge the items in `only` (None: all) at symbolic sizes (dims None) or given ones."""
    t0 = time.time()
    out, paths = {}, []

    def path():
        reset_engine()
        r, why = {}, None
        try:
            with limit(max(5, tlimit - (time.time() - t0))):
                sym = Sym(c, mods, dims)
        except Exception as e:
            why = f"{type(e).__name__}: {str(e)[:300]}"
            if isinstance(e, jax.errors.ConcretizationTypeError):
                res.valued = True
        finally:
            res.branches += list(BRANCHES)
            res.thresholds = sorted(set(res.thresholds) | THRESHOLDS)
            PATHS["on"] = False
        if why is None:
            prove_path(c, sym, only, res, tlimit, t0, r)
        return r, why

    try:
        paths = explore(path)
    except Unsupported as e:
        return None, str(e)
    for r, why in paths:
        if why is not None:
            return None, why
    if len(paths) == 1:
        return paths[0][0], None
    res.valued = True
    for k in paths[0][0]:
        rs = [r.get(k, dict(ok=False, msg="not on every path", n=0, secs=0)) for r, _ in paths]
        bad = [r for r in rs if not r["ok"]]
        out[k] = dict(ok=not bad, definite=False, msg=bad[0]["msg"] if bad else None, n=sum(r["n"] for r in rs),
                      secs=round(sum(r["secs"] for r in rs), 3))
    return out, None


def prove_path(c, sym, only, res, tlimit, t0, out):
    ld = loop_dims(c, sym)
    for it in sym.items:
        if only is not None and it[0] not in only:
            continue
        t1 = time.time()
        try:
            with limit(max(5, tlimit - (time.time() - t0))):
                ok, definite, msg, n = prove_item(sym, it, ld)
        except RecursionError:
            ok, definite, msg, n = False, False, "recursion limit", 0
        except Exception as e:
            ok, definite, msg, n = False, False, f"{type(e).__name__}: {str(e)[:300]}", 0
        out[it[0]] = dict(ok=ok, definite=definite, msg=msg, n=n, secs=round(time.time() - t1, 3))
        if ok:
            try:
                with limit(30):
                    good = canary_item(sym, it, ld)
            except Exception:
                good = True
            res.canaries += 1
            if not good:
                res.canary_bad.append(it[0])


def settle(c, mods, seed, tier):
    res = Result(c)
    c.stub_pairs = None
    if c.prove:
        try:
            base_stubs = c.stubs(mods) if callable(c.stubs) else list(c.stubs)
        except Exception as e:
            base_stubs = []
            res.explored.append(f"stub contracts unavailable: {e}")
        saved = c.stubs
        c.stubs = base_stubs
        try:
            l1, why = ({}, "concrete sizes only") if not c.symbolic else run_level(c, mods, None, None, res, c.tlimit)
            if l1 is None:
                res.trace = why
                l1 = {}
            for k, r in l1.items():
                res.items[k] = dict(status="proved" if r["ok"] else "open", reason=r["msg"], definite=r["definite"],
                                    n=r["n"], secs=r["secs"])
            open_ = [k for k, r in res.items.items() if r["status"] == "open"] if l1 else None
            if open_ is None or open_:
                inst = c.instances if tier == "quick" else c.instances + c.thorough_instances
                for ds in inst:
                    l2, why = run_level(c, mods, ds, open_, res, c.tlimit)
                    if l2 is None:
                        res.trace = res.trace or why
                        for k in list(res.items):
                            if open_ is None or k in open_:
                                res.items[k].update(status="open")
                                res.items[k].setdefault("reason", why)
                        break
                    for k, r in l2.items():
                        x = res.items.setdefault(k, dict(status="bounded", definite=r["definite"], n=0, secs=0, sizes=[]))
                        x.setdefault("sizes", [])
                        if x.get("l2bad"):
                            continue
                        if r["ok"]:
                            x.update(status="bounded", n=x["n"] + r["n"], secs=x["secs"] + r["secs"])
                            x["sizes"].append(ds)
                        else:
                            x.update(status="open", reason=r["msg"], definite=r["definite"], l2bad=True, at=ds)
            if tier == "thorough" and l1:
                cross_check(c, mods, res, [k for k, r in res.items.items() if r["status"] == "proved"])
            if c.symbolic is False and c.complete:
                for x in res.items.values():
                    if x["status"] == "bounded":
                        x["status"] = "proved"
        finally:
            c.stubs = saved
    # numeric replay
    nm = Numeric(c, mods, seed)
    sizes = list(c.numeric) if tier == "quick" else list(c.numeric) + c.thorough_numeric
    for extra in branch_sizes(c, res):
        if extra not in sizes:
            sizes.append(extra)
    for ds in sizes:
        replay(c, nm, ds, res, c.samples if tier == "quick" else 6 * c.samples)
        if res.failures:
            break
    t2 = time.time()
    for ds in hint_sizes(c, res, sizes):
        if res.failures or time.time() - t2 > 60:
            break
        replay(c, nm, dict(ds, nolaw=1) if max(ds.values()) > 40 else ds, res, c.direct)
    open_ = c.prove and (res.trace or any(x["status"] == "open" for x in res.items.values()))
    if not res.failures and (res.valued or open_ and res.thresholds):
        # inputs on both sides of the values the code compares with
        for ds in sizes[:2]:
            replay(c, nm, ds, res, 60 if res.valued else 40 * c.samples, base=5000, around=res.thresholds or [0.01, 1.0, 30.0],
                   direct=60 if res.valued else 2)
            if res.failures:
                break
    if open_ and not res.failures and not c.complete:
        for ds in (sizes[:2] + sizes[-2:] if len(sizes) > 3 else sizes[:2]):
            replay(c, nm, ds, res, 24, base=9000)
            if res.failures:
                break
    if not res.failures and any(x["status"] == "open" and x.get("definite") for x in res.items.values()):
        for ds in sizes[:2]:
            replay(c, nm, ds, res, 40 * c.samples, base=1000)
            if res.failures:
                break
    res.evals = nm.evals
    return res


def cross_check(c, mods, res, names):
    """Obligations proved at symbolic sizes, discharged again at concrete sizes (the size reasoning cross-checked)."""
    n = 0
    for ds in (c.instances + c.thorough_instances)[:2] if names else []:
        other = Result(c)
        l2, why = run_level(c, mods, ds, names, other, min(c.tlimit, 60))
        for k, r in (l2 or {}).items():
            n += r["ok"]
            if not r["ok"] and r["definite"]:
                res.canary_bad.append(f"{k} (proved at symbolic sizes, refuted at {ds})")
    res.explored.append(f"{c.name}: {n} obligations discharged again at concrete sizes" if n else f"{c.name}: no cross-check")


def branch_sizes(c, res):
    """Extra replay sizes around the thresholds at which the code branches on a size."""
    out = []
    for a, b, op, where in res.branches:
        for x, y in ((a, b), (b, a)):
            if x in c.dims and re.fullmatch(r"-?\d+", y) and 0 < int(y) <= 3000:
                for v in (int(y) - 1, int(y), int(y) + 1, *((2 * int(y) + 1,) if int(y) <= 40 else ())):
                    if v >= TT.LOWER.get(x, 1) and c.numeric:
                        ds = dict(c.numeric[0])
                        ds[x] = v
                        if ds not in out:
                            out.append(ds)
    return out[:12]


NARROW = {"int8": 128, "uint8": 256, "int16": 0, "uint16": 0, "float16": 0, "bfloat16": 257}


def source_constants():
    """Integer constants of the package source: sizes around which code that is not proved for all sizes may change."""
    out = set()
    for root, _, files in os.walk(os.path.join(os.path.realpath(REPO), "bayesian_sde_solver")):
        for f in files:
            if not f.endswith(".py") or f in ("ivp.py", "progress_bar.py"):
                continue
            try:
                with open(os.path.join(root, f)) as h:
                    tree = ast.parse(h.read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and type(n.value) is int and 3 <= n.value <= 600:
                    out.add(n.value)
                name = n.attr if isinstance(n, ast.Attribute) else n.value if isinstance(n, ast.Constant) else None
                if isinstance(name, str) and NARROW.get(name):
                    out.add(NARROW[name])
    return sorted(out)


def hint_sizes(c, res, have):
    """Extra replay sizes for a contract with obligations that are not proved for every size."""
    if not c.prove or not c.numeric or not (res.trace or any(x["status"] != "proved" for x in res.items.values())):
        return []
    out = []
    for v in source_constants():
        for x in c.dims:
            loop = x in c.loops
            for w in (v, v + 1, 2 * v + 1):
                if w < TT.LOWER.get(x, 1) or w > (620 if loop else 50) or v > 40 and w == 2 * v + 1:
                    continue
                ds = dict(c.numeric[0])
                if x in ds:
                    ds[x] = w
                    if ds not in out and ds not in have:
                        out.append(ds)
    return sorted(out, key=lambda s: max(s.values()))


def replay(c, nm, ds, res, samples, base=0, around=(), direct=None):
    t0 = time.time()
    direct = direct if direct is not None else c.direct if not base else 0
    beyond = ds not in c.numeric + c.thorough_numeric     # a size chosen because of the code, not by the contract

    def undecided(pairs):
        """The contract itself has no finite value here (a matrix function outside the library's range, say)."""
        return beyond and any(y is not None and not np.all(np.isfinite(np.asarray(y, dtype=float))) for y in pairs)

    def crash(k, vals, e):
        if isinstance(e, MemoryError) or "RESOURCE_EXHAUSTED" in str(e):
            res.explored.append(f"{c.name}{ds}: replay limit: memory")
            return
        if isinstance(e, Unsupported):
            res.explored.append(f"{c.name}{ds}: replay limit {e}")
            return
        res.failures.append(dict(obligation=f"{c.name}: runs on valid input", sizes=ds, sample=k,
                                 detail=f"{type(e).__name__}: {str(e)[:800]}",
                                 trace=traceback.format_exc()[-2500:], inputs=show_vals(vals)))
    last = None
    for k in range(base, base + direct):
        if time.time() - t0 > 3 * c.numlimit or base and time.time() - t0 > c.numlimit:
            break
        params, vals = nm.inputs(ds, k, around)
        try:
            fails, last = nm.eq_direct(ds, params, vals)
        except Exception as e:
            crash(k, vals, e)
            return
        if fails and undecided([y for _, _, y, _ in flatten_rel(last)]):
            continue
        for name, msg, x, y in fails:
            res.failures.append(dict(obligation=f"{c.name}: {name}", sizes=ds, sample=k, detail=msg,
                                     got=np.array2string(x, threshold=60) if x is not None else None,
                                     contract=np.array2string(y, threshold=60) if y is not None else None,
                                     inputs=show_vals(vals)))
        if fails:
            return
    if c.jit and samples > direct and c.has_eq(last):
        f, tols = nm.eq_jit(ds)
        for k in range(base + direct, base + samples):
            params, vals = nm.inputs(ds, k, around)
            try:
                out = f(params, to_jax_vals(vals))
                nm.evals += 1
            except Exception as e:
                if isinstance(e, (Unsupported, jax.errors.ConcretizationTypeError)):
                    break
                crash(k, vals, e)
                return
            if undecided([y for _, y in out.values()]):
                continue
            for name, (x, y) in out.items():
                ok, msg = close(x, y, tols[name])
                if not ok and not nm.rounding_noise(ds, params, vals, name, x, y, tols[name]):
                    res.failures.append(dict(obligation=f"{c.name}: {name}", sizes=ds, sample=k, detail=msg,
                                             got=np.array2string(np.asarray(x), threshold=60),
                                             contract=np.array2string(np.asarray(y), threshold=60),
                                             inputs=show_vals(vals)))
            if res.failures:
                return
            if time.time() - t0 > c.numlimit:
                break
    if c.law and ds.get("nolaw") is None:
        for k in range(base, base + c.lawsamples):
            params, vals = nm.inputs(ds, k)
            try:
                fails, n = nm.law(ds, params, vals)
            except Unsupported as e:
                res.explored.append(f"{c.name}{ds}: {e}")
                break
            except Exception as e:
                crash(k, vals, e)
                return
            for name, msg, x, y in fails:
                res.failures.append(dict(obligation=f"{c.name}: {name}", sizes=ds, sample=k, detail=msg,
                                         got=np.array2string(np.asarray(x), threshold=60),
                                         contract=np.array2string(np.asarray(y), threshold=60),
                                         inputs=show_vals(vals)))
            if fails:
                return


def show_vals(vals):
    return {k: (np.array2string(np.asarray(v), threshold=80, precision=17)) for k, v in vals.items()}


# -------------------------------------------------------------------------------- deciding


def load_known():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) obligation=\[(.*?)\] (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def load_baseline():
    p = os.path.join(VERIF, "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def decide(c, mods):
    t1 = time.time()
    r = settle(c, mods, SEED, TIER)
    r.secs = time.time() - t1
    if c.bound:
        for x in r.items.values():
            if x["status"] == "proved":
                x.update(status="bounded", sizes=[c.bound])
    return r


def run_shard(contracts, k, n, path):
    """Child process: contracts k, k+n, k+2n, ..., results written to a file."""
    sys.setrecursionlimit(20000)
    mods = load_repo()
    out = []
    for j in range(k, len(contracts), n):
        r = decide(contracts[j], mods)
        d = {x: y for x, y in vars(r).items() if x not in ("c", "branches")}
        out.append((j, contracts[j].name, json.loads(json.dumps(d, default=str))))
    with open(path, "wb") as f:
        pickle.dump((out, sorted(I.CONTRACTS_USED)), f)
    return 0


def shards(pid, contracts):
    """Decide the contracts in parallel processes; {index: Result} of what came back."""
    n = min(6, os.cpu_count() or 1, (len(contracts) + 3) // 4)
    if n < 2 or os.environ.get("JXV_SERIAL"):
        return {}
    got = {}
    with tempfile.TemporaryDirectory() as tmp:
        ps = []
        for k in range(n):
            f = os.path.join(tmp, str(k))
            log = open(f + ".log", "w")
            ps.append((f, subprocess.Popen([sys.executable, os.path.join(VERIF, "check.py"), pid, "--shard", str(k), str(n), f],
                                           stdout=log, stderr=log)))
        for f, p in ps:
            p.wait()
            if p.returncode != 0 or not os.path.exists(f):
                continue
            with open(f, "rb") as h:
                out, used = pickle.load(h)
            I.CONTRACTS_USED.update(used)
            for j, name, d in out:
                if contracts[j].name == name:
                    r = Result(contracts[j])
                    vars(r).update(d)
                    got[j] = r
    return got


def run_check(pid, contracts, extra_assumptions=(), checks=()):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    got = shards(pid, contracts)
    mods = load_repo()
    results, known, violations = [], load_known(), []
    for j, c in enumerate(contracts):
        r = got.get(j) or decide(c, mods)
        results.append(r)
        if os.environ.get("JXV_VERBOSE"):
            print(f"[{pid}] {c.name} {r.secs:.1f}s evals={r.evals} trace={r.trace}")
            for k, x in r.items.items():
                print("    ", k, x["status"], x.get("sizes", ""), x["secs"], (x.get("reason") or "")[:500])
            for e in r.explored:
                print("     note:", e)
            for f in r.failures[:3]:
                print("     FAIL:", json.dumps({k: v for k, v in f.items() if k not in ("trace",)}, default=str)[:1500])
                if f.get("trace"):
                    print(f["trace"])
    obligations = discharged = bounded = 0
    und, funcs = [], []
    base = load_baseline().get(pid, {})
    for r in results:
        funcs += [f for f in r.c.functions if f not in funcs]
        for k, x in r.items.items():
            name = f"{r.c.name}: {k}"
            x["name"] = name
            b = base.get(name, {}).get("status")
            if x["status"] == "proved":
                obligations += 1
                discharged += 1
            elif x["status"] == "bounded":
                bounded += 1
                if b == "proved":
                    obligations += 1
            else:
                if b == "proved" or b is None:
                    obligations += 1
                und.append((r, name, x))
    # decision
    lines = []
    seen_known = set()
    for r in results:
        for f in r.failures[:1]:
            kf = [k for k in known if k[0] == pid and k[1] == f["obligation"]]
            if kf:
                seen_known.add(kf[0])
                continue
            failed = [n for _, n, x in und if n.startswith(r.c.name + ":")]
            violations.append((f["obligation"], write_replay(pid, dict(kind="failing input", under_contract=r.c.name,
                               functions=r.c.functions, seed=SEED, undischarged=failed, **f)), ""))
        for n in r.canary_bad:
            print(f"CHECK-ERROR property={pid} vacuous obligation {r.c.name}: {n}")
            return 3
    for r, name, x in und:
        if any(f for f in r.failures):
            continue
        b = base.get(name, {}).get("status")
        if x.get("definite") and b in ("proved", "bounded"):
            violations.append((name, write_replay(pid, dict(kind="failed obligation", obligation=name, was=b,
                               sizes=x.get("at"), functions=r.c.functions, verifier_output=x.get("reason"))),
                               " no-failing-input-found"))
    # extra whole-program checks: callables returning (obligations, discharged, [failure dicts])
    extra = []
    for ch in checks:
        o, d, fails, info = ch(mods, SEED, TIER)
        obligations += o
        discharged += d
        extra.append(info)
        funcs += [f for f in info.get("functions", []) if f not in funcs]
        for f in fails:
            kf = [k for k in known if k[0] == pid and k[1] == f["obligation"]]
            if kf:
                seen_known.add(kf[0])
                continue
            violations.append((f["obligation"], write_replay(pid, dict(seed=SEED, **f)), f.get("suffix", "")))
    if obligations == 0 and bounded == 0 and not violations and not any(r.evals for r in results):
        print(f"CHECK-ERROR property={pid}: no obligations and nothing replayed")
        return 3
    for k in known:
        if k[0] == pid and k in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k[2]}")
    evals = sum(r.evals for r in results)
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=LEVEL.get(pid, "proof"),
              coverage=dict(
                  obligations=obligations, discharged=discharged,
                  bounded_obligations=bounded, undischarged=[dict(name=n, reason=x.get("reason")) for _, n, x in und],
                  evaluations=evals,
                  functions_under_contract=funcs,
                  checker_cmd=f"/opt/venv/bin/python /verif/check.py {pid}",
                  back_end=BACK_END.get(pid, "jxv exact normal-form prover (/verif/jxv) on the jaxpr JAX generates from the current source"),
                  solver_seconds=round(sum(x["secs"] for r in results for x in r.items.values())
                                       + sum(i.get("solver_seconds", 0) for i in extra), 3),
                  index_cases=sum(x["n"] for r in results for x in r.items.values()),
                  canaries_rejected=sum(r.canaries for r in results),
                  obligation_list=[dict(name=x["name"], status=x["status"], sizes=str(x["sizes"]) if x.get("sizes") else "symbolic",
                                        secs=x["secs"]) for r in results for x in r.items.values()],
                  notes=[n for r in results for n in r.explored] + [r.c.note for r in results if r.c.note],
                  extra=extra,
                  trusted_base=TRUSTED + sorted(f"primitive contract: {x}" for x in I.CONTRACTS_USED)),
              assumptions=list(ASSUMPTIONS) + list(extra_assumptions),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if os.environ.get("JXV_BASELINE"):
        bl = {x["name"]: dict(status=x["status"]) for r in results for x in r.items.values()}
        d = load_baseline()
        d[pid] = bl
        with open(os.path.join(VERIF, "baseline.json"), "w") as f:
            json.dump(d, f, indent=1, sort_keys=True)
    for name, path, suffix in violations:
        print(f"failed: {name}")
        print(f"VIOLATION property={pid} replay={path}{suffix}")
    if not violations:
        print(f"{pid}: {discharged}/{obligations} obligations discharged, {bounded} bounded, {evals} replays, "
              f"{len(und)} open, {time.time() - t0:.1f}s")
    return 1 if violations else 0


def write_replay(pid, d):
    p = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(p, exist_ok=True)
    h = hashlib.sha1(json.dumps(d, default=str, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(p, f"{pid}-{h}.json")
    d = dict(property=pid, command=f"cd /verif && VERIF_SEED={SEED} /opt/venv/bin/python check.py {pid}", **d)
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return path


LEVEL = {}
BACK_END = {"S22": "z3 (SMT-LIB) on the verification conditions from symbolic execution of the current source"}

TRUSTED = [
    "JAX 0.4.23 tracing: the jaxpr is the program that runs (checked against direct execution by replay)",
    "jxv interpreter of jaxpr primitives and its normal-form prover",
    "CPython 3.12, numpy (replay)",
]

ASSUMPTIONS = [
    "machine floating point treated as exact real arithmetic (float literals read as the reals they denote)",
    "user functions (drift, diffusion, vector field) are pure and differentiable as often as the code differentiates them",
    "jax.random: split/fold_in give distinct independent keys; normal draws of distinct keys are independent standard normals",
]
