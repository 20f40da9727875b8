from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_sets", mode="Z01", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_sets", "san", mode="Z01", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'sets of objects of about 80 kinds (also grown and shrunk containers, user-defined sizes); sizes compared with sys.getsizeof and with sums over members for sets, partitions, rows, statistics and unions; distinct by (number of objects, types)'
MIN = {'object-size': 1000, 'owned-size': 500, 'set-size': 60, 'row-size': 200}
