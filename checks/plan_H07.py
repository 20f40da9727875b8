from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_live", mode="H07", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_live", "san", mode="H07", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'histories of creation, death, address reuse and resurrection under several horizons, and of reference points over rooted graphs, the whole process and unreachable objects, against a model of what is new; distinct by (kinds, history)'
MIN = {'news': 625, 'old': 625, 'reused-address': 250, 'horizon-dropped': 6, 'deep': 1, 'resurrected': 2, 'setref': 6, 'relative': 250, 'hidden-old': 250, 'tracked': 62, 'arith': 25, 'whole': 12, 'view-horizon': 12, 'heapu': 2, 'late-type': 2}
