from vlib import Shard


def plan(thorough):
    b = 300 if thorough else 20
    sh = [Shard("w_etc", mode="X02", n=1000000000, budget=b, part=i, timeout=b + 180) for i in range(7)]
    sh += [Shard("w_etc", "san", mode="X02", n=1000000000, budget=b, part=10, timeout=b + 300)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN,
        technique="runtime monitoring: each transformation of a random expression or automaton is observed and its language, up to a word length, compared with the definition")


RULE = 'random regular expressions (up to depth 3, 2-4 letters), unions of words, automata with up to 6 states; the language is compared on all words up to length 5; distinct by expression or automaton'
MIN = {'language': 2000, 'op-simplified': 500, 'op-reversed': 100, 'minimised': 200, 'solved': 100, 'permutations': 1000, 'listed': 50}
