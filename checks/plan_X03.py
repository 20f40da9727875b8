from vlib import Shard


def plan(thorough):
    b = 300 if thorough else 20
    sh = [Shard("w_etc", mode="X03", n=1000000000, budget=b, part=i, timeout=b + 180) for i in range(7)]
    sh += [Shard("w_etc", "san", mode="X03", n=1000000000, budget=b, part=10, timeout=b + 300)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN,
        technique="runtime monitoring: each completed rewriting system is run on words and its normal forms compared with known finite monoids, models of the equations and exhaustive rewriting")


RULE = 'random presentations of up to 3 letters, of finite monoids (whose word problem is known exactly) and of categories, colimits, coequalizers and left Kan extensions of small diagrams; words up to length 6 and the overlaps of the rules; distinct by presentation'
MIN = {'completed-finite': 10, 'completed-random': 20, 'normal-forms': 400, 'words': 400, 'sound-rules': 100, 'colimits': 10, 'coequalizers': 10, 'arrow-maps': 6, 'kan-sets': 6, 'kan-relations': 10}
