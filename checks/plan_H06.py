from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_heap", mode="H06", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_heap", "san", mode="H06", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'dominated sets, sizes and immediate dominators of random sets in random closed graphs against their definition over the reference oracle; distinct by (set size, types)'
MIN = {'dominos': 100, 'imdom': 100, 'dominos-tuple': 10}
