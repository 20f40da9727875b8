from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_heap", mode="H05", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_heap", "san", mode="H05", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'shortest paths between random sets with random exclusions, compared with a breadth-first search over the reference oracle; distinct by (distance, targets, exclusions)'
MIN = {'paths-query': 50, 'path': 125, 'avoided': 2, 'no-path': 2, 'path-index': 75}
