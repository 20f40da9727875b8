from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_sets", mode="C04", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_sets", "san", mode="C04", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'random set expressions over empty, singleton and larger identity sets compared with a model keyed by id(); distinct by (operator, sizes, overlap)'
MIN = {"op": 3000, "cmp": 10000, "observe": 3000, "slice": 300, "mapped": 3000}
