"""D03: configuration overrides against direct, in-order assignment on a reference config."""
import os
import warnings

import yaml
from lsst.pipe.base import Pipeline
from lsst.pipe.base.configOverrides import ConfigOverrides
from lsst.pipe.base.pipelineIR import ParametersIR
from vlib import cfgtask
from vlib.cfgtask import Cfg, CfgTask, Inst
from vlib.core import Spec, Violated, run, short

warnings.simplefilter("ignore")

PATHS = {
    "i": "int", "oi": "oint", "f": "float", "s": "str", "b": "bool", "r": "range", "ch": "ch", "li": "li", "ls": "ls",
    "di": "di", "ds": "ds", "sub.a": "int", "sub.f": "float", "sub.inner.a": "int", "sub.inner.s": "str",
    "choice.name": "cname", "choice.active.x": "int", "st.a": "int", "st.value.s": "str", "saveLogOutput": "bool",
    "connections.pfx": "tmpl", "connections.out": "cstr",
}
# Strings that are not the text of any literal or variable, so must be kept as they are.
RAW = ["hello world", "a/b:c", "file:///x/y.txt", "foo.bar", "3x", "a-b", "1+1", "x=1", "-foo", "--flag", "-a.b", "~x", "not x", "f(1)", "lambda: 1",
       "[1, 2", "a b", "é☃ x", "x[0]", "1:2", "a,b c", "$HOME/x", "a if b else c", "'unterminated", "-'q'", "- x", "[-foo]"]
NAMES = ["foo", "some_name", "_x", "Zz"]


def value_of(rng, kind):
    """A valid native value for a field kind."""
    if kind in ("int", "oint"):
        if kind == "oint" and rng.random() < 0.2:
            return None
        return rng.choice([0, 1, -1, 5, -17, 10**12])
    if kind == "range":
        return rng.randint(0, 10)
    if kind == "ch":
        return rng.choice(["one", "two"])
    if kind == "float":
        return rng.choice([0.0, -2.5, 1e-9, 3.25, 1e22, float("inf")])
    if kind == "bool":
        return rng.random() < 0.5
    if kind in ("tmpl", "cstr"):
        return rng.choice(["abc", "q7", "zz"])
    if kind == "str":
        return rng.choice(["plain", "two words", "5", "None", "1.0", "", "-5", "[1]", "it's", 'dq"x', "CONST_INT", None])
    if kind == "cname":
        return rng.choice(["A", "B"])
    if kind == "li":
        return [rng.randint(-5, 5) for _ in range(rng.randint(0, 3))]
    if kind == "ls":
        return [rng.choice(["a", "5", "b c", "CONST_INT", "None", "x-y"]) for _ in range(rng.randint(0, 3))]
    if kind == "di":
        return {rng.choice("abc"): rng.randint(-5, 5) for _ in range(rng.randint(0, 3))}
    if kind == "ds":
        return {rng.choice("abc"): rng.choice(["v", "5", "w x"]) for _ in range(rng.randint(0, 3))}
    raise AssertionError(kind)


def invalid_for(rng, kind):
    """(text or native, value it denotes) that the field must reject."""
    return {
        "int": ("'5'", "5"), "oint": ("some text", "some text"), "range": ("11", 11), "ch": ("three", "three"), "float": ("abc def", "abc def"), "bool": ("3", 3),
        "str": ("5", 5), "cname": ("Q", "Q"), "li": ("['a']", ["a"]), "ls": ([1], [1]), "di": ("{'a': 'b c'}", {"a": "b c"}), "ds": ({"a": 1}, {"a": 1}),
        "tmpl": ([1], [1]), "cstr": ("7", 7),
    }[kind]


def given(rng, kind, v, params, pyvars, ctx):
    """Return (value passed to the override API, value it denotes)."""
    x = rng.random()
    if kind in ("str", "tmpl", "cstr") and x < 0.35:
        if rng.random() < 0.75:
            raw = rng.choice([r for r in RAW if kind == "str" or "." not in r])
            ctx.ev("raw_string")
        else:
            raw = rng.choice(NAMES)
        return raw, raw
    if x < 0.5 and not isinstance(v, (str, list, dict)):
        return v, v  # native scalar
    if x < 0.5 and isinstance(v, list):
        if all(isinstance(e, int) for e in v):
            # native list whose string elements are themselves literals or variables
            g, w = [], []
            for e in v:
                if rng.random() < 0.3:
                    g.append("CONST_INT"), w.append(42)
                elif rng.random() < 0.5:
                    g.append(repr(e)), w.append(e)
                else:
                    g.append(e), w.append(e)
            ctx.ev("list_elements")
            return g, w
        return [repr(e) for e in v], v
    if x < 0.5 and isinstance(v, dict):
        g, w = {}, {}
        for k, e in v.items():
            if kind == "di" and rng.random() < 0.3:
                g[k], w[k] = "CONST_INT", 42
                ctx.ev("dict_variable")
            else:
                g[k], w[k] = (repr(e) if isinstance(e, str) or rng.random() < 0.5 else e), e
        return g, w
    if x < 0.62 and kind in ("int", "li", "str"):
        if kind == "int" and pyvars and rng.random() < 0.5:
            n = rng.choice(sorted(pyvars))
            ctx.ev("python_variable")
            return n, pyvars[n]
        ctx.ev("variable")
        return {"int": ("CONST_INT", 42), "li": ("CONST_LIST", [7, 8]), "str": ("CONST_STR", "a constant")}[kind]
    if isinstance(v, float) and v == float("inf"):
        return "1e999", v
    ctx.ev("literal_string")
    if kind in ("int", "float") and isinstance(v, (int, float)) and v < 0 and rng.random() < 0.5:
        return f"--{-v!r}", -v
    # String elements of containers are interpreted in turn.
    if isinstance(v, list):
        return repr([repr(e) if isinstance(e, str) else e for e in v]), v
    if isinstance(v, dict):
        return repr({k: repr(e) if isinstance(e, str) else e for k, e in v.items()}), v
    return repr(v), v


def setpath(cfg, path, v):
    *p, last = path.split(".")
    for a in p:
        cfg = getattr(cfg, a)
    setattr(cfg, last, v)


def overrides_case(ctx):
    """A sequence of overrides through ConfigOverrides, Pipeline edits, or YAML."""
    rng = ctx.rng
    route = rng.choice(["direct", "edits", "yaml", "yaml+edits"])
    tmp = ctx.tmpdir()
    params = {f"p{i}": rng.choice([3, -4, 11]) for i in range(rng.randint(0, 2))}
    sparams = {"q0": rng.choice(["txt", "a b", "-w", "9z"])} if rng.random() < 0.5 else {}
    steps = []  # (kind, payload, native actions)
    pyvars, last = {}, {}
    nfile = 0
    bad = rng.random() < 0.25
    n = rng.randint(1, 9)
    bad_at = rng.randrange(n) if bad else -1
    paths = rng.sample(sorted(PATHS), rng.randint(2, 6)) if rng.random() < 0.7 else ["choice.name", "choice.active.x", "i"]

    def action(path=None):
        path = path or rng.choice(paths)
        if path in last and rng.random() < 0.4:
            return path, last[path]
        last[path] = value_of(rng, PATHS[path])
        return path, last[path]

    for k in range(n):
        typ = rng.choice(["value"] * 5 + ["python", "python", "file", "instrument" if route == "direct" else "value"])
        if k == bad_at:
            what = rng.choice(["field", "type", "python", "file", "param"])
            if what == "field":
                steps.append(("value", (rng.choice(["nope", "sub.nope", "nope.x", "choice.active.nope"]), 3), "raise"))
            elif what == "type":
                path = rng.choice([p for p in paths])
                g, w = invalid_for(rng, PATHS[path])
                steps.append(("value", (path, g), [(path, w)]))
            elif what == "python":
                steps.append(("python", rng.choice(["config.nope = 1", "raise RuntimeError('x')", "parameters.p0 = 3", "syntax error here"]), "raise"))
            elif what == "file":
                steps.append(("file", os.path.join(tmp, "absent.py"), "raise"))
            else:
                steps.append(("value", ("i", "parameters.nope"), "raise"))
            continue
        if typ == "value":
            path, v = action()
            if route != "direct" and (params or sparams) and rng.random() < 0.25:
                if PATHS[path] == "int" and params:
                    pn = rng.choice(sorted(params))
                    steps.append(("value", (path, f"parameters.{pn}"), [(path, params[pn])]))
                    ctx.ev("parameter")
                    continue
                if PATHS[path] == "str" and sparams:
                    steps.append(("value", (path, "parameters.q0"), [(path, sparams["q0"])]))
                    ctx.ev("parameter")
                    continue
            g, w = given(rng, PATHS[path], v, params, pyvars, ctx)
            steps.append(("value", (path, g), [(path, w)]))
        elif typ in ("python", "file", "instrument"):
            acts = [action() for _ in range(rng.randint(1, 2))]
            lines = [f"config.{p} = {v!r}" if v != float("inf") else f"config.{p} = float('inf')" for p, v in acts]
            if typ == "python" and rng.random() < 0.4:
                name, val = rng.choice(["va", "vb"]), rng.randint(100, 200)
                pyvars[name] = val
                lines.insert(0, f"{name} = {val}")
            if typ != "instrument" and params and rng.random() < 0.4:
                pn = rng.choice(sorted(params))
                lines.append(f"config.sub.a = parameters.{pn}")
                acts.append(("sub.a", params[pn]))
                ctx.ev("parameter_in_code")
            if typ == "python":
                steps.append(("python", "\n".join(lines), acts))
            else:
                nfile += 1
                d = os.path.join(tmp, f"d{nfile}")
                os.mkdir(d)
                fn = os.path.join(d, "cfgTask.py")
                with open(fn, "w") as f:
                    f.write("\n".join(lines) + "\n")
                steps.append((typ, fn if typ == "file" else d, acts))
        ctx.ev("step_" + steps[-1][0])
    inst_acts = []
    inst = None
    if route != "direct" and rng.random() < 0.4:
        inst_acts = [action(rng.choice(sorted(PATHS))) for _ in range(2)]
        inst_acts = [(p, v) for p, v in inst_acts if v != float("inf")]
        with open(os.path.join(tmp, "cfgTask.py"), "w") as f:
            f.write("\n".join(f"config.{p} = {v!r}" for p, v in inst_acts) + "\n")
        inst = "vlib.cfgtask.Inst"
        Inst.configPaths = [tmp]
        ctx.ev("instrument_overrides")
    # ---- reference
    want = Cfg()
    expect_error = False
    try:
        for p, v in inst_acts:
            setpath(want, p, v)
        for _, _, acts in steps:
            if acts == "raise":
                expect_error = True
                break
            for p, v in acts:
                setpath(want, p, v)
    except Exception:
        expect_error = True
    hist = f"route={route} params={params}{sparams} instrument={inst_acts} steps={short([(a, b) for a, b, _ in steps], 1500)}"
    # ---- real
    def real():
        if route == "direct":
            co = ConfigOverrides()
            if params:
                if rng.random() < 0.4:
                    co.addParameters(ParametersIR(mapping={k: 77 for k in params}))
                co.addParameters(ParametersIR(mapping=dict(params)))
            elif rng.random() < 0.5:
                co.addParameters(ParametersIR(mapping={}))
            for kind, pay, _ in steps:
                if kind == "value":
                    co.addValueOverride(*pay)
                elif kind == "python":
                    co.addPythonOverride(pay)
                elif kind == "file":
                    co.addFileOverride(pay)
                else:
                    i = Inst()
                    i.configPaths = [pay]
                    co.addInstrumentOverride(i, "cfgTask")
            c = Cfg()
            co.applyTo(c)
            return c
        nyaml = {"yaml": len(steps), "edits": 0, "yaml+edits": rng.randint(0, len(steps))}[route]
        # Group consecutive steps into yaml config blocks; within a block the order is files, python, values.
        blocks, cur, phase = [], {}, 0
        for kind, pay, _ in steps[:nyaml]:
            ph = {"file": 0, "python": 1, "value": 2}[kind]
            dup = kind == "python" and "python" in cur or kind == "value" and pay[0] in cur
            if ph < phase or dup or (cur and rng.random() < 0.4):
                blocks.append(cur)
                cur, phase = {}, 0
            phase = ph
            if kind == "file":
                cur.setdefault("file", []).append(pay)
            elif kind == "python":
                cur["python"] = pay
            else:
                cur[pay[0]] = pay[1]
        if cur:
            blocks.append(cur)
        for b in blocks:
            if len(b.get("file", [])) == 1 and rng.random() < 0.5:
                b["file"] = b["file"][0]
        doc = {"description": "d", "tasks": {"t": {"class": "vlib.cfgtask.CfgTask"}, "u": {"class": "vlib.cfgtask.CfgTask", "config": {"connections.pfx": "u"}}}}
        if blocks:
            doc["tasks"]["t"]["config"] = blocks[0] if len(blocks) == 1 and rng.random() < 0.5 else blocks
        allp = {**params, **sparams}
        late = {k for k in allp if rng.random() < 0.3}
        if allp.keys() - late:
            doc["parameters"] = {k: v for k, v in allp.items() if k not in late}
        if inst:
            doc["instrument"] = inst
        pipe = Pipeline.fromString(yaml.safe_dump(doc, sort_keys=False, allow_unicode=True))
        for kind, pay, _ in steps[nyaml:]:
            if kind == "value":
                pipe.addConfigOverride("t", *pay)
            elif kind == "python":
                pipe.addConfigPython("t", pay)
            else:
                pipe.addConfigFile("t", pay)
        for k in sorted(late):
            pipe.addConfigOverride("parameters", k, allp[k])
        g = pipe.to_graph()
        ref = Cfg()
        for p, v in inst_acts:
            setpath(ref, p, v)
        ref.connections.pfx = "u"
        ctx.check(same(g.tasks["u"].config, ref), "leaked-to-other-task", lambda: hist + diff(g.tasks["u"].config, ref))
        return g.tasks["t"].config

    try:
        got = real()
    except Violated:
        raise
    except Exception as e:
        if not expect_error and route != "direct":
            # Two tasks may clash on dataset types / names only through `connections`; then compare nothing.
            from lsst.pipe.base.pipeline_graph import PipelineGraphError
            if isinstance(e, PipelineGraphError):
                ctx.ev("graph_conflict")
                return
        ctx.check(expect_error, "spurious-error", lambda: f"{type(e).__name__}: {e}; {hist}")
        ctx.ev("rejected")
        ctx.sig("rej", type(e).__name__, steps[bad_at][0] if bad else "")
        return
    ctx.check(not expect_error, "invalid-override-dropped", hist)
    ctx.check(same(got, want), "wrong-config", lambda: hist + diff(got, want))
    ctx.ev("config_compared")
    ctx.sig(route, [(k, str(p)) for k, p, _ in steps])
    ctx.sample(hist)


def same(a, b):
    return repr(a.toDict()) == repr(b.toDict())


def diff(got, want):
    g, w = got.toDict(), want.toDict()

    def walk(a, b, pre=""):
        for k in sorted(set(a) | set(b), key=str):
            x, y = a.get(k), b.get(k)
            if isinstance(x, dict) and isinstance(y, dict):
                yield from walk(x, y, f"{pre}{k}.")
            elif x != y:
                yield f"{pre}{k}: observed {x!r}, expected {y!r}"
    return " DIFF " + "; ".join(walk(g, w))


def misuse(ctx):
    """Overrides of unknown tasks or of the parameters section by code are refused and change nothing."""
    rng = ctx.rng
    p = Pipeline.fromString("description: d\nparameters: {p0: 1}\ntasks:\n  t:\n    class: vlib.cfgtask.CfgTask\n    config: {i: 4}\n")
    before = str(p)
    what = rng.choice(["label", "labelf", "labelp", "pfile", "ppy", "dataid"])
    if what == "label":
        ctx.raises(LookupError, lambda: p.addConfigOverride("zz", "i", 3), "unknown-label-accepted")
    elif what == "labelf":
        ctx.raises(LookupError, lambda: p.addConfigFile("zz", "x.py"), "unknown-label-accepted")
    elif what == "labelp":
        ctx.raises(LookupError, lambda: p.addConfigPython("zz", "x"), "unknown-label-accepted")
    elif what == "pfile":
        ctx.raises(ValueError, lambda: p.addConfigFile("parameters", "x.py"), "parameters-by-file")
    elif what == "ppy":
        ctx.raises(ValueError, lambda: p.addConfigPython("parameters", "x"), "parameters-by-python")
    else:
        q = Pipeline.fromString("description: d\ntasks:\n  t:\n    class: vlib.cfgtask.CfgTask\n    config: [{dataId: {visit: 3}, i: 4}]\n")
        ctx.raises(NotImplementedError, q.to_graph, "data-id-config-applied")
    ctx.equal(str(p), before, "changed-by-failed-override", what)
    ctx.ev("misuse")
    ctx.sig(what)


if __name__ == "__main__":
    run(Spec("D03", "exploration",
             "random sequences of value/python/file/instrument overrides through ConfigOverrides, Pipeline edits and YAML, compared with direct "
             "assignment in order on a reference config; distinct by route and override sequence",
             {"overrides": (overrides_case, 4000, 60000), "misuse": (misuse, 12, 50)},
             required=["config_compared", "rejected", "raw_string", "parameter", "literal_string", "variable", "list_elements", "instrument_overrides", "step_file", "step_python", "misuse"],
             assumptions=["within one YAML block files apply before Python before values, as documented for pipelines"]))
