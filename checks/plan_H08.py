from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_live", mode="H08", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_live", "san", mode="H08", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'sequences of queries over generated graphs held by the process, kept or dropped, against reference counts, contents, liveness and process state before; snapshots, referrers, paths and frames with results kept, against those before; successive snapshots in many calling contexts; distinct by (kind, queries)'
MIN = {'query': 12, 'undisturbed': 62, 'released': 6, 'kept': 3, 'hidden-snapshot': 12500, 'referrer': 3, 'path-object': 1, 'idle': 12500, 'frames': 1}
