"""S25: insert."""
from jxv.harness import *
from contracts.common import *


def contracts():
    from bayesian_sde_solver.utils.insert import insert
    out = []

    def contract(name, shapes, axis, tup):
        """x = concatenation of p leading and q trailing slices along the axis."""
        args = []
        k = len(shapes)
        for i, sh in enumerate(shapes):
            def at(e, sh=sh):
                s = list(sh)
                s[axis] = e
                return tuple(s)
            args += [Arg(f"a{i}", at("p")), Arg(f"b{i}", at("q")), Arg(f"y{i}", tuple(s for n, s in enumerate(sh) if n != axis % len(sh)))]

        def code(U, D, **kw):
            xs = [jnp.concatenate([kw[f"a{i}"], kw[f"b{i}"]], axis=axis) for i in range(k)]
            ys = [kw[f"y{i}"] for i in range(k)]
            if tup:
                return tuple(insert(tuple(xs), at, tuple(ys), axis) for at in (D.p, 0, D.p + D.q))
            return tuple(insert(xs[0], at, ys[0], axis) for at in (D.p, 0, D.p + D.q))

        def rel(U, D, a, o):
            mid, first, last = o if tup else [(x,) for x in o]
            r = {}
            for i in range(k):
                e = jnp.expand_dims(a[f"y{i}"], axis)
                r[f"leaf {i} at p"] = Eq(mid[i], jnp.concatenate([a[f"a{i}"], e, a[f"b{i}"]], axis=axis))
                r[f"leaf {i} at 0"] = Eq(first[i], jnp.concatenate([e, a[f"a{i}"], a[f"b{i}"]], axis=axis))
                r[f"leaf {i} at the end"] = Eq(last[i], jnp.concatenate([a[f"a{i}"], a[f"b{i}"], e], axis=axis))
            r["number of leaves"] = Eq(jnp.asarray(float(len(mid))), jnp.asarray(float(k)))
            return r
        num = [dict(p=2, q=1, m=2, n=3), dict(p=1, q=3, m=1, n=1), dict(p=3, q=2, m=2, n=2), dict(p=2, q=2, m=4, n=3)]
        out.append(Contract(name, ["utils.insert.insert"], code, rel, args, {}, ["p", "q", "m", "n"], num[:3], num, samples=4, loops=()))
    contract("vector", [("p",)], 0, False)
    contract("matrix axis 0", [("p", "m")], 0, False)
    contract("matrix axis 1", [("m", "p")], 1, False)
    contract("stack axis 0", [("p", "m", "n")], 0, False)
    contract("stack axis 1", [("m", "p", "n")], 1, False)
    contract("1-tuple", [("p", "m")], 0, True)
    contract("2-tuple", [("p", "m"), ("p",)], 0, True)
    contract("law triple", [("p", "m"), ("p", "n"), ("p", "m", "n")], 0, True)
    contract("pair axis 1", [("m", "p"), ("n", "p")], 1, True)
    contract("stack axis 2", [("m", "n", "p")], 2, False)
    contract("matrix last axis", [("m", "p")], -1, False)
    contract("5-tuple", [("p", "m"), ("p",), ("p", "m", "n"), ("p", "n"), ("p",)], 0, True)
    contract("8-tuple last axis", [("m", "p"), ("p",), ("m", "n", "p"), ("n", "p")] * 2, -1, True)
    return out
