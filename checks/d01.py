"""D01: TaskMetadata against a nested-dict reference model."""
import copy
import math
import pickle
from collections import OrderedDict
from types import MappingProxyType

import numpy as np
from lsst.pipe.base import TaskMetadata

from vlib.core import Spec, run, short

KEYS = ["a", "b", "c", "d", "long key", "é", "UPPER", "1", "scalars", "arrays", "metadata"]


class A(list):
    """Array leaf in the model."""


def norm_scalar(v):
    if type(v) in (str, float, int, bool):
        return v
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    raise AssertionError(v)


def rand_scalar(rng, kind=None):
    kind = kind or rng.choice(["int", "float", "bool", "str", "npi", "npf"])
    if kind == "int":
        return rng.choice([0, 1, -1, 7, 2**31, 2**53 + 1, -(2**63), 2**80, rng.randint(-1000, 1000)])
    if kind == "float":
        return rng.choice([0.0, -0.0, 1.0, 2.0, 0.1, float("nan"), float("inf"), float("-inf"), 5e-324, 1.7976931348623157e308, 1e22, rng.random()])
    if kind == "bool":
        return rng.random() < 0.5
    if kind == "str":
        return rng.choice(["", "x", "nan", "1", "1.0", "true", "null", "Infinity", "a.b", "line\nbreak", "é☃", '"q"', "None", " "])
    if kind == "npi":
        return rng.choice([np.int64(5), np.int32(-3), np.uint8(255)])
    if kind == "npf":
        return rng.choice([np.float64(2.5), np.float32(0.5), np.float64("nan")])
    raise AssertionError(kind)


def rand_array(rng):
    n = rng.choice([0, 1, 1, 2, 3, 8]) if rng.random() < 0.97 else rng.choice([100, 300])
    kind = rng.choice(["int", "float", "bool", "str", "npi1", "npf1"])
    if kind == "npi1":
        out = [np.int64(rng.randint(-5, 5)) for _ in range(n)]
    elif kind == "npf1":
        out = [np.float64(rng.random()) for _ in range(n)]
    else:
        out = [rand_scalar(rng, kind) for _ in range(n)]
    return tuple(out) if rng.random() < 0.3 else out


def rand_value(rng, depth=0):
    """Return (python value to store, model value)."""
    r = rng.random()
    if r < 0.5 or depth > 2:
        v = rand_scalar(rng)
        return v, norm_scalar(v)
    if r < 0.75:
        v = rand_array(rng)
        return v, A(norm_scalar(x) for x in v)
    d, m = {}, {}
    for _ in range(rng.choice([0, 1, 2, 3])):
        k = rng.choice(KEYS)
        v, mv = rand_value(rng, depth + 1)
        d[k] = v
        m[k] = mv
    form = rng.choice(["dict", "od", "proxy", "tm"])
    if form == "od":
        d = OrderedDict(d)
    elif form == "proxy":
        d = MappingProxyType(d)
    elif form == "tm":
        d = TaskMetadata.from_dict(d)
    return d, m


BAD = [None, object(), 1j, {1, 2}, [1, "a"], [1, 1.5], [True, 1], [None], [[1]], [{"a": 1}], {"a": None}, {"x": {"y": object()}}, [1, np.int64(1)], (1, None)]


def rand_bad(rng):
    """A fixed invalid value, or a list that mixes two element types (also
    types related by inheritance) in any order and at any position."""
    if rng.random() < 0.5:
        return rng.choice(BAD)
    kinds = ["int", "float", "bool", "str", "npi", "npf"]
    k1, k2 = rng.sample(kinds, 2)
    out = [rand_scalar(rng, k1)] * rng.choice([1, 1, 2, 5])
    out.insert(rng.randint(0, len(out)), rand_scalar(rng, k2))
    return tuple(out) if rng.random() < 0.3 else out


def same(a, b):
    if isinstance(b, A):
        return type(a) is list and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in b)
    if type(a) is not type(b):
        return False
    if isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return a == b


def mget(m, path):
    for p in path:
        if not isinstance(m, dict) or p not in m:
            raise KeyError
        m = m[p]
    return m


def all_paths(m, pre=()):
    for k, v in m.items():
        yield pre + (k,), v
        if isinstance(v, dict):
            yield from all_paths(v, pre + (k,))


def verify(ctx, t, m, hist):
    def why(s):
        return f"{s}; state={short(t.to_dict())} model={short(m)} history={short(hist[-6:], 1500)}"

    ctx.ev("state_checked")
    ctx.check(same(t.to_dict(), m), "state", lambda: why("to_dict differs"))
    ctx.check(len(t) == len(m), "len", lambda: why(f"len={len(t)}"))
    ks = list(t)
    ctx.check(sorted(ks) == sorted(m) and sorted(t.keys()) == sorted(m), "iteration", lambda: why(f"keys={ks}"))
    items = list(t.items())
    ctx.check(sorted(k for k, _ in items) == sorted(m), "items", lambda: why("items keys"))
    for k, v in items:
        vv = v.to_dict() if isinstance(v, TaskMetadata) else v
        ctx.check(same(vv, m[k]), "items", lambda: why(f"items[{k}]={v!r}"))
    paths = dict(all_paths(m))
    ctx.check(t.names() == {".".join(p) for p in paths}, "names", lambda: why(f"names={t.names()}"))
    ctx.check(t.paramNames(topLevelOnly=False) == {".".join(p) for p, v in paths.items() if not isinstance(v, dict)}, "paramNames", lambda: why("paramNames all"))
    ctx.check(t.paramNames(topLevelOnly=True) == {k for k, v in m.items() if not isinstance(v, dict)}, "paramNames", lambda: why("paramNames top"))
    probes = list(paths) + [("zz",), ("a", "zz"), ("a", "b", "c"), ("b", "a"), ("",)]
    for p in probes:
        key = ".".join(p)
        try:
            v = mget(m, p)
            present = True
        except KeyError:
            present = False
        ctx.check((key in t) == present, "contains", lambda: why(f"{key!r} in t = {key in t}"))
        if not present:
            for f in (lambda: t[key], lambda: t.getScalar(key), lambda: t.getArray(key)):
                ctx.raises(KeyError, f, "missing-key", why(f"lookup of {key!r}"))
            d = object()
            ctx.check(t.get(key, d) is d, "get-default", lambda: why(key))
            ctx.check(t.get(key) is None, "get-default", lambda: why(key))
            continue
        if isinstance(v, dict):
            ctx.check(same(t[key].to_dict(), v), "getitem", lambda: why(key))
            ctx.check(same(t.get_dict(key), v), "get_dict", lambda: why(f"get_dict({key})={t.get_dict(key)}"))
            arr = t.getArray(key)
            ctx.check(len(arr) == 1 and same(arr[0].to_dict(), v), "getArray", lambda: why(key))
        elif isinstance(v, A):
            ctx.check(same(list(t.getArray(key)), v), "getArray", lambda: why(f"{key}: {t.getArray(key)}"))
            if v:
                for got in (t[key], t.getScalar(key), t.get(key)):
                    ctx.check(same(got, v[-1]), "array-scalar", lambda: why(f"{key}: {got!r}"))
            else:
                ctx.raises(KeyError, lambda: t[key], "empty-array-scalar", why(key))
        else:
            for got in (t[key], t.getScalar(key), t.get(key, 0)):
                ctx.check(same(got, v), "getitem", lambda: why(f"{key}: {got!r}"))
            ctx.check(same(t.getArray(key), A([v])), "getArray", lambda: why(key))


def roundtrip(ctx, t, m, hist):
    ctx.ev("roundtrip")
    js = t.model_dump_json()
    r = TaskMetadata.model_validate_json(js)
    ctx.check(same(r.to_dict(), m), "json-roundtrip", lambda: f"{js} -> {short(r.to_dict())} expected {short(m)}")
    verify(ctx, r, m, hist + ["json"])
    r2 = TaskMetadata.model_validate(t.model_dump())
    ctx.check(same(r2.to_dict(), m), "python-roundtrip", lambda: f"{short(r2.to_dict())} expected {short(m)}")
    ctx.check(TaskMetadata.model_validate_json(r.model_dump_json()).to_dict().keys() == m.keys(), "json-roundtrip", "second")
    ctx.check(same(TaskMetadata.from_dict(t.to_dict()).to_dict(), m), "dict-roundtrip", lambda: f"{m}")
    fm = TaskMetadata.from_metadata(t)

    def collapse(x):
        out = {}
        for k, v in x.items():
            if isinstance(v, dict):
                v = collapse(v)
                if not v:
                    continue
            elif isinstance(v, A) and len(v) == 1:
                v = v[0]
            out[k] = v
        return out

    ctx.check(same(fm.to_dict(), collapse(m)), "from_metadata", lambda: f"{short(fm.to_dict())} expected {short(collapse(m))}")
    for c in (copy.deepcopy(t), pickle.loads(pickle.dumps(t)), t.model_copy(deep=True)):
        ctx.check(same(c.to_dict(), m), "copy", lambda: f"{short(c.to_dict())}")
        c["zz_new"] = 1
        c["a.zz"] = 2
        for k in list(c.arrays):
            c.arrays[k].append(c.arrays[k][0] if c.arrays[k] else 1)
        ctx.check(same(t.to_dict(), m), "copy-aliased", lambda: f"{short(t.to_dict())}")
    # dict views must be detached
    d = t.to_dict()

    def scribble(x):
        for k, v in list(x.items()):
            if isinstance(v, dict):
                scribble(v)
            elif isinstance(v, list):
                v.append("scribble")
        x["scribble"] = 1

    scribble(d)
    for k, v in m.items():
        if isinstance(v, dict):
            scribble(t.get_dict(k))
    ctx.check(same(t.to_dict(), m), "dict-aliased", lambda: f"{short(t.to_dict())} expected {short(m)}")


def history(ctx):
    rng = ctx.rng
    t, m = TaskMetadata(), {}
    hist = []
    for step in range(rng.randint(3, 25)):
        op = rng.choices(["set", "sethier", "add", "del", "setdict", "bad", "badhier", "badadd", "addhier", "badkey", "listalias"],
                         [6, 4, 6, 2, 1, 1, 1, 1, 2, 0.3, 0.5])[0]
        depth = 1 if op in ("set", "add", "setdict", "bad", "badadd", "listalias") else rng.choice([2, 2, 3])
        path = tuple(rng.choice(KEYS[:5] if rng.random() < 0.9 else KEYS) for _ in range(depth))
        if op == "del":
            cur = [p for p, _ in all_paths(m)]
            path = rng.choice(cur) if cur and rng.random() < 0.8 else path
        key = ".".join(path)
        ctx.ev("op_" + op)
        if op in ("set", "sethier", "setdict"):
            if op == "setdict":
                while True:
                    v, mv = rand_value(rng)
                    if isinstance(mv, dict):
                        break
            else:
                v, mv = rand_value(rng)
            hist.append((op, key, v))
            if op == "setdict":
                t.set_dict(key, v)
            else:
                t[key] = v
            x = m
            for p in path[:-1]:
                if not isinstance(x.get(p), dict):
                    x[p] = {}
                x = x[p]
            x[path[-1]] = copy.deepcopy(mv)
        elif op in ("add", "addhier"):
            if rng.random() < 0.6:
                v = rand_scalar(rng)
                new = A([norm_scalar(v)])
            else:
                v = rand_array(rng)
                new = A(norm_scalar(x) for x in v)
            hist.append((op, key, v))
            try:
                parent = mget(m, path[:-1])
                if not isinstance(parent, dict):
                    raise KeyError
            except KeyError:
                ctx.raises(KeyError, lambda: t.add(key, v), "add-missing-parent", f"{hist}")
                parent = None
            if parent is not None:
                cur = parent.get(path[-1])
                if isinstance(cur, dict):
                    ctx.raises(ValueError, lambda: t.add(key, v), "add-to-metadata", f"{hist}")
                else:
                    old = A() if cur is None else (cur if isinstance(cur, A) else A([cur]))
                    if old and new and type(old[0]) is not type(new[0]):
                        ctx.ev("add_type_mismatch")
                        ctx.raises(ValueError, lambda: t.add(key, v), "add-type-mismatch", f"{hist}")
                    else:
                        t.add(key, v)
                        parent[path[-1]] = A(old + new)
        elif op == "del":
            hist.append((op, key))
            try:
                mget(m, path)
            except KeyError:
                def f():
                    del t[key]
                ctx.raises(KeyError, f, "delete-missing", f"{hist}")
            else:
                del t[key]
                del mget(m, path[:-1])[path[-1]]
        elif op in ("bad", "badhier"):
            v = rand_bad(rng)
            hist.append((op, key, repr(v)))

            def f():
                t[key] = v
            ctx.raises(ValueError, f, "bad-value-accepted", f"{hist[-3:]}")
        elif op == "badadd":
            v = rng.choice([{"a": 1}, TaskMetadata()]) if rng.random() < 0.1 else rand_bad(rng)
            hist.append((op, key, repr(v)))
            ctx.raises(ValueError, lambda: t.add(key, v), "bad-value-accepted", f"{hist[-3:]}")
        elif op == "badkey":
            k = rng.choice([1, None, ("a",)])
            hist.append((op, k))

            def f():
                t[k] = 1
            ctx.raises(KeyError, f, "bad-key-accepted", f"{k!r}")
            ctx.raises(KeyError, lambda: t[k], "bad-key-accepted", f"{k!r}")
        elif op == "listalias":
            v = [1, 2, 3]
            hist.append((op, key))
            t[key] = v
            m[key] = A([1, 2, 3])
            v.append(99)
        if rng.random() < 0.5:
            verify(ctx, t, m, hist)
        if rng.random() < 0.1:
            # continue on a deserialized instance
            t = TaskMetadata.model_validate_json(t.model_dump_json())
            hist.append("reload")
    verify(ctx, t, m, hist)
    roundtrip(ctx, t, m, hist)
    if len(m) >= 2:
        ctx.sig(hist)
    ctx.sample([repr(h) for h in hist[:8]])


SPEC = Spec(
    pid="D01", level="exploration",
    rule="random histories (3-25 operations: set, hierarchical set, add, delete, set_dict, invalid values/keys, reload from JSON) "
         "over scalars/arrays/mappings of int (beyond 2**63), float (nan, inf, -0.0), bool, number-like and unicode strings, numpy scalars; every query compared "
         "with a nested-dict model; non-trivial = final state has >= 2 keys, distinct by history",
    kinds={"history": (history, 12000, 250000)},
    required=["roundtrip", "op_add", "op_sethier", "op_del", "op_bad", "op_badhier", "op_badadd", "add_type_mismatch", "state_checked"],
    assumptions=["keys used do not contain '.' inside a component", "metadata objects passed in are not modified by the caller afterwards"],
)
if __name__ == "__main__":
    run(SPEC)
