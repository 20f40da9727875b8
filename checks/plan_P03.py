from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_stat", mode="P03", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_stat", "san", mode="P03", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'tables of sets, partitions, statistics, differences and paths printed page by page and at once, parsed and compared with the rows; names with odd characters, table sizes around the page limits; distinct by (relation, rows, objects, page and line length)'
MIN = {'page': 500, 'row-shown': 2000, 'all': 300, 'path-page': 20, 'name-known': 300}
