from vlib import Shard


def plan(thorough):
    n = 10000000
    b = 300 if thorough else 20
    sh = [Shard("w_leak", what="op" if i < 4 else "query", n=n, budget=b, part=i, timeout=b + 180) for i in range(8)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'operations of the sets and graphs, classifiers and views, with operands of every kind and those that end in errors (also errors raised by the n-th call back of a classifier, iterator, comparison or hash), queries of sessions, sessions and statistics, each repeated in batches with the memory blocks, bytes, objects and references counted; cycles of references through every type of the extensions, which the collector must free; distinct by (operation or query, operands) or (types in the cycle)'
MIN = {'operations': 40, 'queries': 4, 'errors': 6, 'errors-in-callbacks': 6, 'batches': 60, 'cycles': 60}
