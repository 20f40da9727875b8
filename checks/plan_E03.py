from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_int", mode="E03", n=n, budget=b, part=i, timeout=b + 180) for i in range(7)]
    sh += [Shard("w_int", "san", mode="E03", n=n, budget=b, part=10, timeout=b + 300)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'queries of sessions over generated graphs, each interrupted at a point of the code of guppy where signals are delivered, and asked again along with others; distinct by (queries, places of interruption)'
MIN = {'interrupted': 12, 'answers': 25, 'frames-seen': 6, 'collection-interrupted': 1}
