from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_heap", mode="H04", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_heap", "san", mode="H04", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'all reference pairs, and random unrelated pairs, of random closed graphs; every reported relation is evaluated on the source object; distinct by kinds of objects'
MIN = {'pair': 5000, 'relation': 3000, 'numedges': 3000, 'frames': 3}
