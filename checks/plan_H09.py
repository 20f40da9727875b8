from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_live", mode="H09", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_live", "san", mode="H09", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'snapshots and queries beside blocked and churning threads; parallel queries of sessions and graphs of their own, against the results alone; sessions that start at once; sets that several threads change; distinct by (kind, threads)'
MIN = {"held": 37, "parallel": 250, "set-ops": 625, "sessions": 1, "op:referrers": 1, "op:shpaths": 1, "op:horizon": 1, "op:by": 1, "op:root": 1, "op:str": 1, "op:rp": 1, "churned": 2500, "shared": 7}
