from vlib import Shard


def plan(thorough):
    n = 60000 if thorough else 5000
    b = 400 if thorough else 25
    sh = [Shard("w_bitset", mode="S01", n=n, budget=b, part=i, timeout=b + 120) for i in range(6)]
    sh += [Shard("w_bitset", "san", mode="S01", n=n, budget=b, part=10 + i, timeout=b + 240) for i in range(2)]
    return dict(
        rule="random sets (dense, word-boundary, sparse, extreme, complemented) x construction route x operator x operand type; "
             "a case is distinct by (operator, operand kinds, both sets); every result is compared with a frozenset+complement model",
        shards=sh, min_events={"binop": 2000, "iop": 2000, "cmp": 5000, "shift": 1000, "compare": 10000})
