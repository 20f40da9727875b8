from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_nodes", mode="N02", n=n, budget=b, part=i, timeout=b + 120) for i in range(6)]
    sh += [Shard("w_nodes", "san", mode="N02", n=n, budget=b, part=10 + i, timeout=b + 240) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = ("random histories of container operations, failing ones included; after every step the reference count of every object is "
        "compared with its base count plus the containers and edge ends that hold it; distinct by (operation, container, size class)")
MIN = {"refcheck": 5000, "history": 100, "cycle": 50, "alive": 50}
