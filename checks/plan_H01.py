from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_heap", mode="H01", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_heap", "san", mode="H01", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'random closed object graphs (about 80 kinds of objects), with the root of the view set to the root of the graph, and graphs planted under the real root; the snapshot is compared with the closure under gc.get_referents; distinct by (kinds, size)'
MIN = {'heap': 50, 'object-edges': 5000, 'reachable': 100, 'heap-real': 3, 'heap-objects': 20000}
