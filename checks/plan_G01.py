from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_nodes", mode="G01", n=n, budget=b, part=i, timeout=b + 120) for i in range(6)]
    sh += [Shard("w_nodes", "san", mode="G01", n=n, budget=b, part=10 + i, timeout=b + 240) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = ("random histories of graph updates interleaved with queries, compared with a set of index pairs; distinct by (query or update, size class)")
MIN = {"query": 5000, "step": 5000, "assign": 100, "mapping": 2000, "history": 50, "iter-modified": 10}
