from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_rp", mode="P02", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_rp", "san", mode="P02", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'reference patterns of random targets in random graphs (relations, depths, stop kinds, no-cycle, immediate dominators, referents) compared row by row, mark by mark and page by page with an expansion of the true referrers; distinct by (mode, relation, depth, rows, marks)'
MIN = {'row': 2000, 'line': 2000, 'row-named': 500, 'mark-': 300, 'mark^': 100, 'mark+': 100, 'markS': 20, 'path-line': 200}
