from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_err", mode="E01", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_err", "san", mode="E01", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'operations whose operands call back, each call back raising alone or with all later ones; distinct by (operation, operands, call backs)'
MIN = {'raised': 200}
