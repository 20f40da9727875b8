from vlib import Shard


def plan(thorough):
    n = 1000000
    b = 300 if thorough else 20
    sh = [Shard("w_html", mode="L02", n=n, budget=b, part=i, timeout=b + 180) for i in range(6)]
    return dict(
        rule=RULE,
        shards=sh, min_events=MIN)


RULE = 'random documents over a hostile alphabet, linked and written as HTML and XHTML, read back by an HTML parser; distinct by their nodes'
MIN = {'document': 1000, 'element': 5000, 'text': 5000, 'name': 1000, 'link': 300, 'file': 50, 'rejected': 50}
