"""G05: task-selection expressions against an independent set-algebra evaluator."""
from lsst.daf.butler import DimensionUniverse
from lsst.pipe.base.pipeline_graph import InvalidExpressionError
from vlib.core import Spec, run
from vlib.pipes import build, outside_types, random_specs, reach, task_succ

U = DimensionUniverse()


class Bad(Exception):
    pass


class Model:
    def __init__(self, specs, subsets):
        self.specs = {t.label: t for t in specs}
        self.subsets = subsets
        self.succ = task_succ(specs)
        self.pred = {t: {s for s in self.succ if t in self.succ[s]} for t in self.succ}
        self.producer, self.initprod, self.cons, self.ds = {}, {}, {}, set()
        for t in specs:
            for d in t.run_writes():
                self.producer[d] = t.label
            for d in t.init_writes():
                self.initprod[d] = t.label
            for d in t.run_reads() | t.init_reads():
                self.cons.setdefault(d, set()).add(t.label)
            self.ds |= t.run_writes() | t.init_writes() | t.run_reads() | t.init_reads()
        self.all = set(self.specs)

    def find(self, q, label):
        kinds = [k for k, s in (("T", self.all), ("D", self.ds), ("S", set(self.subsets))) if label in s]
        if q is not None:
            if q not in kinds:
                raise Bad(f"unknown {q}:{label}")
            return q
        if len(kinds) != 1:
            raise Bad(f"{label}: {kinds}")
        return kinds[0]

    def eval(self, e):
        op = e[0]
        if op == "id":
            k = self.find(e[1], e[2])
            if k == "T":
                return {e[2]}
            if k == "S":
                return set(self.subsets[e[2]])
            if e[2] in self.initprod:
                raise Bad("init-output")
            return {self.producer[e[2]]} if e[2] in self.producer else set()
        if op == "not":
            return self.all - self.eval(e[1])
        if op == "or":
            return self.eval(e[1]) | self.eval(e[2])
        if op == "and":
            return self.eval(e[1]) & self.eval(e[2])
        o, (_, q, label) = e[1], e[2]
        k = self.find(q, label)
        if k == "S":
            raise Bad("subset direction")
        incl = o.endswith("=")
        if k == "T":
            r = reach(self.pred if o[0] == "<" else self.succ, label)
            return r | {label} if incl else r
        r = set()
        if o[0] == "<":
            if label in self.initprod:
                raise Bad("init-output ancestors")
            if label in self.producer:
                p = self.producer[label]
                r = reach(self.pred, p)
                if incl:
                    r |= {p}
        else:
            if incl:
                if label in self.initprod:
                    raise Bad("init-output")
                if label in self.producer:
                    r |= {self.producer[label]}
            for c in self.cons.get(label, ()):
                r |= {c} | reach(self.succ, c)
        return r


PREC = {"or": 1, "and": 2, "not": 3, "dir": 3, "id": 4}


def render(e, rng, parent=0, right=False):
    def sp():
        return rng.choice(["", "", " ", "  ", "\t"])
    op = e[0]
    if op == "id":
        s = (e[1] + ":" if e[1] else "") + e[2]
    elif op == "dir":
        s = e[1] + sp() + render(e[2], rng, 4)
    elif op == "not":
        s = "~" + sp() + render(e[1], rng, 3)
    else:
        c = "|" if op == "or" else "&"
        s = render(e[1], rng, PREC[op]) + sp() + c + sp() + render(e[2], rng, PREC[op])
    if PREC[op] < parent or (op != "id" and parent < 4 and rng.random() < 0.1) or (op == "id" and 0 < parent < 4 and rng.random() < 0.05):
        s = "(" + sp() + s + sp() + ")"
    return s


def gen(rng, names, depth):
    def ident():
        k, n = rng.choice(names)
        return ("id", k if rng.random() < 0.4 else None, n)
    if depth == 0 or rng.random() < 0.15:
        return ident() if rng.random() < 0.5 else ("dir", rng.choice(["<", "<=", ">", ">="]), ident())
    r = rng.random()
    if r < 0.25:
        return ("not", gen(rng, names, depth - 1))
    return ("or" if r < 0.6 else "and", gen(rng, names, depth - 1), gen(rng, names, depth - 1))


def exprs(ctx):
    rng = ctx.rng
    specs = random_specs(rng, nmax=9, min_tasks=2)
    order = specs[:]
    rng.shuffle(order)
    subsets = {}
    for k in range(rng.randint(0, 3)):
        subsets[f"sub{k}"] = set(rng.sample([t.label for t in specs], rng.randint(0, len(specs))))
    ds0 = sorted({d for t in specs for d in t.run_writes() | t.run_reads()})
    if ds0 and rng.random() < 0.3:  # subset with the name of a dataset type
        subsets[rng.choice(ds0)] = {specs[0].label}
    if rng.random() < 0.3:  # task with the name of a dataset type
        nm = rng.choice(ds0)
        if nm not in subsets and not nm.endswith(("_log", "_metadata")):
            old = specs[-1].label
            for s in specs:
                for c in s.ins.values():
                    if c.name == f"{old}_metadata":
                        c.name = f"{nm}_metadata"
            for v in subsets.values():
                if old in v:
                    v.discard(old)
                    v.add(nm)
            specs[-1].label = nm
    g = build(specs, order)
    for k, v in subsets.items():
        g.add_task_subset(k, v)
    if rng.random() < 0.5:
        g.resolve(dimensions=U, dataset_types=outside_types(specs, U))
    m = Model(specs, subsets)
    names = [("T", t) for t in m.all] * 3 + [("D", d) for d in sorted(m.ds)] + [("S", s) for s in subsets] * 2
    for _ in range(40):
        e = gen(rng, names, rng.choice([0, 1, 2, 3, 5]))
        if rng.random() < 0.05:
            e = ("or", e, ("id", rng.choice([None, "T", "D", "S"]), "nope"))
        s = render(e, rng)
        try:
            want = m.eval(e)
        except Bad as b:
            ctx.raises(InvalidExpressionError, lambda: g.select_tasks(s), "invalid-accepted", f"{s!r} ({b})")
            ctx.ev("rejected")
            continue
        got = g.select_tasks(s)
        ctx.equal(set(got), want, "wrong-selection", f"{s!r} tasks={sorted(m.all)} succ={m.succ} subsets={subsets}")
        ctx.ev("selected")
        if want and want != m.all:
            ctx.ev("nontrivial")
        ctx.sig(s, sorted(want))
        if rng.random() < 0.1:
            sub = g.select(s)
            ctx.equal(set(sub.tasks), want, "select-graph", s)
            for label in want:
                ctx.equal(set(sub.inputs_of(label)), set(g.inputs_of(label)), "select-graph-edges", f"{s} {label}")
                ctx.equal(set(sub.outputs_of(label)), set(g.outputs_of(label)), "select-graph-edges", f"{s} {label}")
            ctx.ev("select")
    ctx.sample(dict(tasks=sorted(m.all), expr=s, subsets={k: sorted(v) for k, v in subsets.items()}))
    # Syntactic garbage: token-level mutations that are invalid by construction.
    t = rng.choice(sorted(m.all))
    bads = ["", " ", f"{t} {t}", f"({t}", f"{t})", f"{t} |", f"& {t}", f"~", f"<", f"<<{t}", f"< <={t}", f"<({t})", f"~(<)", "()",
            f"{t} | | {t}", f"{t} & & {t}", f"{t} ~ {t}", f"{t} < {t}", f"<~{t}", f"T:", f"X:{t}", f"{t}, {t}", f"{t}.x", f"!{t}", f"{t} and {t}", f"T: {t}", f"{t} + {t}", f"=<{t}", f"T:T:{t}"]
    for s in rng.sample(bads, 8):
        ctx.raises(InvalidExpressionError, lambda: g.select_tasks(s), "syntax-error-accepted", repr(s))
        ctx.ev("syntax_rejected")


if __name__ == "__main__":
    run(Spec("G05", "exploration",
             "random pipelines (<=9 tasks) x random expressions (depth<=5) evaluated by an independent evaluator; distinct by expression text and selected set",
             {"exprs": (exprs, 2000, 20000)}, required=["selected", "nontrivial", "rejected", "syntax_rejected", "select"]))
