from vlib import Shard


def plan(thorough):
    n = 20000 if thorough else 400
    b = 500 if thorough else 25
    sh = [Shard("w_bitset", mode="S02", n=n, budget=b, part=i, timeout=b + 120) for i in range(6)]
    sh += [Shard("w_bitset", "san", mode="S02", n=n, budget=b, part=10 + i, timeout=b + 240) for i in range(2)]
    return dict(
        rule="random histories of 10..5000 updates, pops, in-place operators, snapshots and copies on one mutable set, in styles small/"
             "segmented/big/extreme; state, return values and all live snapshots compared with a model; distinct by start set, style and length",
        shards=sh, min_events={"histories": 100, "steps": 10000, "histories_with_segments": 10, "mut:pop": 500, "snap:immlen": 100,
                               "snap:mutated": 50})
