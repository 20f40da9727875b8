from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_nodes", mode="N01", n=n, budget=b, part=i, timeout=b + 120) for i in range(6)]
    sh += [Shard("w_nodes", "san", mode="N01", n=n, budget=b, part=10 + i, timeout=b + 240) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = ("random histories over objects with hostile equality, hash and spread addresses; distinct by (operation, operand types, "
        "size classes, overlap); after every step members, length, membership and iteration are compared with a set of indices")
MIN = {"verify": 5000, "op": 500, "iop": 500, "cmp": 2000, "update": 1000, "history": 20, "rejected": 100, "hash": 50}
