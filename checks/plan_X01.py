from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_glue", mode="X01", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_glue", "san", mode="X01", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'random package trees with composition directives, and the modules of the system, driven by several sessions in random orders of access and assignment against a model of each attribute; distinct by (tree shape, sessions) or access history'
MIN = {'access-getter': 2000, 'access-import': 500, 'access-path': 100, 'fixed-points': 500, 'assign-chgable-ok': 500, 'assign-other-no': 500, 'assign-setable-no': 50, 'recursive': 50, 'getter-failed': 50, 'real-access': 3000, 'real-change': 300, 'real-refused': 200, 'effects': 20, 'compared-sessions': 1000}
