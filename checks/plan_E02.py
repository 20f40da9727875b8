from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_err", mode="E02", n=n, budget=b, fam=("sets", "heap")[i & 1], part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_err", "san", mode="E02", n=n, budget=b, fam=("sets", "heap")[i & 1], part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'operations of bit sets, node sets, node graphs, heap views, classifiers, horizons and the root, each allocation failing alone or with all later ones; distinct by (operation, operands, faults)'
MIN = {'faults': 200, 'op:bits': 3, 'op:ng': 3, 'op:hv': 3, 'op:cli': 3}
