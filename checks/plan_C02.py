from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_sets", mode="C02", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_sets", "san", mode="C02", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'random closed object graphs; classification by referrer kinds, inbound relations, first matching kind and membership compared with the referrers found by a gc.get_referents closure; distinct by (relation, size of set, types)'
MIN = {'rcs-object': 2000, 'via-object': 1000, 'findex-object': 1000, 'idset-object': 300}
