from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_sets", mode="C03", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_sets", "san", mode="C03", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'random expressions over basic kinds, with their predicates; selection, membership and claims of inclusion, equality and disjointness are judged on sampled objects; distinct by shape of expression'
MIN = {'kind-op': 1000, 'select': 1000, 'in': 3000, 'claim<=': 200, 'claim-disjoint': 100, 'claim==': 100}
