from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_heap", mode="H03", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_heap", "san", mode="H03", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'random closed graphs, changed at random between queries; referents and referrers of random sets compared with the reference oracle; distinct by (set size, query, types)'
MIN = {'referrers-query': 100, 'referents-query': 100, 'link': 50}
