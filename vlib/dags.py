"""Random DAG generators of varied shapes."""
from __future__ import annotations
import random


def random_dag(rng: random.Random, max_nodes: int = 14) -> tuple[list[int], list[tuple[int, int]]]:
    n = rng.randint(0, max_nodes) if rng.random() < 0.1 else rng.randint(1, max_nodes)
    shape = rng.choice(["sparse", "dense", "chain", "layers", "diamond", "star", "forest", "hub"])
    order = list(range(n))
    rng.shuffle(order)
    e = set()
    if shape in ("sparse", "dense"):
        p = rng.uniform(0.05, 0.25) if shape == "sparse" else rng.uniform(0.3, 0.9)
        for i in range(n):
            for j in range(i + 1, n):
                if rng.random() < p:
                    e.add((order[i], order[j]))
    elif shape == "chain":
        for i in range(n - 1):
            if rng.random() < 0.9:
                e.add((order[i], order[i + 1]))
            if i + 2 < n and rng.random() < 0.25:
                e.add((order[i], order[rng.randrange(i + 2, n)]))
    elif shape == "layers":
        k = rng.randint(2, 5)
        layer = [rng.randrange(k) for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if layer[j] == layer[i] + 1 and rng.random() < 0.5:
                    e.add((i, j))
                elif layer[j] > layer[i] + 1 and rng.random() < 0.1:
                    e.add((i, j))
    elif shape == "diamond":
        for i in range(0, n - 3, 3):
            a, b, c, d = order[i : i + 4]
            e |= {(a, b), (a, c), (b, d), (c, d)}
    elif shape == "star":
        if n > 1:
            h = n // 2
            for i in range(n):
                if i < h:
                    e.add((order[i], order[h]))
                elif i > h:
                    e.add((order[h], order[i]))
    elif shape == "forest":
        for i in range(1, n):
            if rng.random() < 0.8:
                e.add((order[rng.randrange(i)], order[i]))
    elif shape == "hub":
        for i in range(1, n):
            for _ in range(rng.randint(0, 3)):
                e.add((order[rng.randrange(i)], order[i]))
    return list(range(n)), sorted(e)


def closure(nodes, edges):
    """descendants and ancestors as dict of sets, computed independently."""
    succ = {n: set() for n in nodes}
    pred = {n: set() for n in nodes}
    for a, b in edges:
        succ[a].add(b)
        pred[b].add(a)

    def reach(adj, s):
        seen, todo = set(), list(adj[s])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(adj[x])
        return seen

    return succ, pred, {n: reach(succ, n) for n in nodes}, {n: reach(pred, n) for n in nodes}
