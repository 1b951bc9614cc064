"""E01: graph walker trace monitor."""
import networkx as nx

from lsst.pipe.base.graph_walker import GraphWalker
from vlib.core import Spec, run
from vlib.dags import closure, random_dag


def walk(ctx, early=False):
    rng = ctx.rng
    nodes, edges = random_dag(rng, 14 if rng.random() < 0.9 else 40)
    # node keys of varied (hashable) types
    keyf = rng.choice([lambda i: i, lambda i: f"n{i}", lambda i: ("q", i)])
    nodes = [keyf(i) for i in nodes]
    edges = [(keyf(a), keyf(b)) for a, b in edges]
    succ, pred, desc, anc = closure(nodes, edges)
    cls = nx.MultiDiGraph if rng.random() < 0.25 else nx.DiGraph
    g = cls()
    shuffled = nodes[:]
    rng.shuffle(shuffled)
    g.add_nodes_from(shuffled)
    es = edges[:]
    rng.shuffle(es)
    g.add_edges_from(es)
    if cls is nx.MultiDiGraph and es:
        g.add_edges_from(rng.choices(es, k=len(es) // 2 + 1))
    pfail = rng.choice([0, 0.1, 0.3, 0.6, 1.0])
    p_next = rng.choice([0.1, 0.5, 1.0])
    policy = rng.choice(["random", "lifo", "fifo"])
    w = GraphWalker(g)
    handed, finished, failed, blocked = [], set(), set(), set()
    active = []
    log = []
    ended = False

    def expect_ready():
        return {n for n in nodes if n not in finished and n not in failed and n not in blocked
                and n not in handed and pred[n] <= finished}

    def pull():
        nonlocal ended
        try:
            ready = next(w)
        except StopIteration:
            ended = True
            log.append("end")
            ctx.ev("walk_end")
            left = [n for n in nodes if n not in finished and n not in failed and n not in blocked]
            ctx.check(not left, "ended-early", f"iteration ended with {left} never reported; log={log}")
            return
        ctx.ev("pull")
        ready = list(ready)
        log.append(("ready", sorted(map(str, ready))))
        want = expect_ready()
        for n in ready:
            ctx.check(n not in handed, "handed-twice", f"{n} handed out twice; log={log}")
            ctx.check(n not in finished and n not in failed, "handed-after-report", f"{n} handed out after being reported; log={log}")
            ctx.check(n not in blocked, "handed-blocked", f"{n} handed out although downstream of a failure; log={log}")
            ctx.check(pred[n] <= finished, "handed-too-early", f"{n} handed out before {pred[n] - finished}; log={log}")
            ctx.ev("handed")
        ctx.check(len(set(ready)) == len(ready), "handed-twice", log)
        ctx.check(set(ready) == want, "ready-not-handed", f"handed {ready}, runnable {want}; log={log}")
        handed.extend(ready)
        active.extend(ready)
        if not ready and not active:
            # nothing active, nothing ready, but iteration not ended
            left = [n for n in nodes if n not in finished and n not in failed and n not in blocked]
            ctx.violate("stalled", f"nothing handed out, nothing pending, not ended; unreported {left}; log={log}")

    def do_fail(n):
        ctx.ev("fail")
        r = list(w.fail(n))
        log.append(("fail", str(n), sorted(map(str, r))))
        failed.add(n)
        want = {d for d in desc[n] if d not in finished and d not in failed and d not in blocked}
        ctx.check(len(r) == len(set(r)), "blocked-duplicates", log)
        ctx.check(set(r) == want, "blocked-set", f"fail({n}) returned {r}, expected {want}; log={log}")
        blocked.update(want)
        ctx.ev("blocked", len(want))

    def do_finish(n):
        ctx.ev("finish")
        w.finish(n)
        log.append(("finish", str(n)))
        finished.add(n)

    it = iter(w)
    ctx.check(it is w or hasattr(it, "__next__"), "not-an-iterator")
    steps = pulls = 0
    while not ended:
        steps += 1
        ctx.check(steps < 20 * len(nodes) + 50, "no-progress", log)
        cand = []
        if early and rng.random() < 0.4:
            # Nodes may be reported before being handed out (as documented):
            # either runnable ones, or ones whose predecessors are pending.
            cand = [n for n in nodes if n not in finished and n not in failed and n not in blocked and n not in handed
                    and not any(d in active for d in desc[n])]
        if cand:
            n = rng.choice(cand)
            ctx.ev("early_report")
            if rng.random() < pfail:
                do_fail(n)
            else:
                do_finish(n)
            continue
        if not active or (pulls < 2 and rng.random() < p_next):
            pulls += 1
            pull()
            continue
        pulls = 0
        i = {"random": rng.randrange(len(active)), "lifo": -1, "fifo": 0}[policy]
        n = active[i]
        if any(d in active for d in desc[n]) and early:
            # do not fail an ancestor of an active node (only reachable by early reports)
            active.pop(i)
            do_finish(n)
            continue
        active.pop(i)
        if rng.random() < pfail:
            do_fail(n)
        else:
            do_finish(n)
    for _ in range(2):
        try:
            extra = next(w)
        except StopIteration:
            pass
        else:
            ctx.violate("restarted", f"walker handed out {extra} after ending")
    ctx.check(finished | failed | blocked == set(nodes), "conservation", log)
    if len(nodes) > 2 and edges:
        ctx.sig(sorted(map(str, edges)), log)
    ctx.sample(dict(nodes=len(nodes), edges=[list(map(str, e)) for e in edges][:12], log=[list(x) if isinstance(x, tuple) else x for x in log][:12]))


SPEC = Spec(
    pid="E01", level="exploration",
    rule="random DAGs (8 shapes, <=40 nodes, Di/MultiDiGraph, int/str/tuple keys) walked with random interleavings of "
         "pulls, finishes and failures (fail probability 0..1, LIFO/FIFO/random reporting, optionally reporting nodes "
         "before they are handed out); a trace monitor keeps its own finished/failed/blocked state; non-trivial = >2 nodes with edges, distinct by (edges, event log)",
    kinds={"ordered": (walk, 12000, 300000), "early": (lambda c: walk(c, True), 6000, 150000)},
    required=["handed", "fail", "blocked", "finish", "walk_end", "early_report"],
    assumptions=["single-threaded use of a walker, as documented"],
)
if __name__ == "__main__":
    run(SPEC)
