from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_sets", mode="P01", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_sets", "san", mode="P01", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'random sets partitioned by every equivalence relation and combinations; rows checked for conservation, disjointness, sums, order and access; distinct by (relation, size, types)'
MIN = {'partition': 300, 'row': 2000, 'access': 1000}
