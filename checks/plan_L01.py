from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_gsl", mode="L01", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'random trees, dotted texts, specification nodes, write-file records and markup over a hostile alphabet; distinct by their text'
MIN = {'tree': 500, 'text': 500, 'malformed': 20, 'spec-nodes': 500, 'spec-file': 100, 'node-methods': 500, 'characters': 100, 'attributes': 50, 'files': 50, 'markup': 100}
