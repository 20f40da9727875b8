from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_live", mode="H02", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    sh += [Shard("w_live", "san", mode="H02", n=n, budget=b, part=10 + i, timeout=b + 300) for i in range(2)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'objects held by nothing but state of the interpreter or of a thread, planted in up to ten of 45 places at once with up to five blocked threads; every reference of the root named, listed and looked up; paths evaluated; distinct by places'
MIN = {'bogus': 160, 'found': 100, 'found:own-exception': 4, 'frame': 200, 'in-thread': 16, 'listed': 1000, 'named': 400, 'named:i0_async_exc': 1, 'named:i0_c_traceobj': 1, 'path': 30, 'subinterpreters': 1}
