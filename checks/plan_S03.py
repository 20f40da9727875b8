from vlib import Shard


def plan(thorough):
    n = 40000 if thorough else 1000
    b = 400 if thorough else 25
    sh = [Shard("w_bitset", mode="S03", n=n, budget=b, part=i, timeout=b + 120) for i in range(6)]
    sh += [Shard("w_bitset", "san", mode="S03", n=n, budget=b, part=10 + i, timeout=b + 240) for i in range(2)]
    return dict(
        rule="each random set is built by about 40 routes; equality, order, hash, length, slices, indexes, int and pickle round trips and "
             "ranges (including index-type limits) are compared with builtin set/list/range; distinct by the set",
        shards=sh, min_events={"form": 5000, "hash": 5000, "slice": 3000, "range": 1000, "cmp": 2000})
