from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_sets", mode="C01", n=n, budget=b, part=i, timeout=b + 180, prod=i % 2) for i in range(6)]
    sh += [Shard("w_sets", "san", mode="C01", n=n, budget=b, part=10 + i, timeout=b + 300, prod=i % 2) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'random object graphs and odd builtin objects, classified in random order and grouping by every intrinsic equivalence relation and combinations; compared with a direct definition (type, owner by attribute access, sys.getsizeof, tracemalloc); distinct by (relation, size of set, types)'
MIN = {'classified': 1250, 'alone': 75, 'owner-change': 5}
