from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_repr", mode="C05", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_repr", "san", mode="C05", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'kinds and equivalence relations made by random expressions over odd classes and by partitions; their text is evaluated; distinct by the shape of the expression'
MIN = {'kind': 200, 'evaluated': 200, 'equal': 200, 'er': 50, 'selected': 100, 'reordered': 20}
