from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_stat", mode="D01", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_stat", "san", mode="D01", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'summaries of random sets dumped, loaded in every way, subtracted and sliced in random sequences and compared with dictionaries of counts and sizes; distinct by (relation, operation, rows of the operands)'
MIN = {'stat': 500, 'subtract': 100, 'slice': 100, 'query': 100, 'malformed': 100}
