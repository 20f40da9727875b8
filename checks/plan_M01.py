from vlib import Shard


def plan(thorough):
    n = 100000000
    b = 300 if thorough else 20
    sh = [Shard("w_mem", "san" if i % 2 else "plain", n=n, budget=b, part=i, timeout=b + 120) for i in range(8)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'calls of every method of the types of the extensions with arguments of every kind, with call backs, finalizers and iterators during which the operands change; distinct by (method, types of arguments) or (operation, operands)'
MIN = {'calls': 1000, 'within': 300, 'finalizers': 200, 'iterated': 1000, 'from-within': 300}
