"""L02: documents of the document language written as HTML and XHTML."""
import contextlib
import html.entities
import html.parser
import io
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vw

WORDS = ["a", "word", "x < y", "a & b", "&amp;", "&lt;p&gt;", "\"q\"", "it's", "it's \"both\"", "back\\slash", "\\n", "a@b.c", "<b>", "</p>",
         "<!-- c -->", "-->", "]]>", "%s %d", "{x}", "\xe9\xe5", "\u4e2d", "\U0001f600", "two\nlines", "  spaces  ", "tab\there", "x" * 90,
         "long text " * 12, "1 > 0", "a=b", "&", "<", ">", "&#65;", "0", ";", "'", "\"", "\\", "&copy", "a\n\n b"]
INLINE = ("em", "strong", "tt", "code", "b", "i", "span", "kbd", "var", "samp", "sub", "sup", "q", "abbr", "dfn", "cite")
BLOCK = ("p", "div", "blockquote", "h1", "h2", "h3", "h6", "pre", "address", "center")
CLEAR = ("block", "string", "word", "man_page_mode", "to_document_only", "to_html_only")
ATTRS = ("title", "class", "id", "width", "align", "lang", "alt", "summary", "style")
TGT = ".tgt."


class Given:
    """Random nodes, and what has to be seen of them."""

    def __init__(self, w, rng, N, names):
        self.w, self.rng, self.N, self.names = w, rng, N, names
        self.bad = None
        self.head = []
        self.lang = None

    def word(self):
        return self.rng.choice(WORDS)

    def attrs(self, kids):
        rng = self.rng
        exp = []
        if rng.random() < .7:
            return exp
        for n in rng.sample(ATTRS, rng.randrange(1, 4)):
            v = self.word()
            exp.append((n, v))
            if rng.random() < .5:
                kids.append(self.N(n + "=", v))
            else:
                kids.append(self.N("with", "", [self.N(n, v)]))
        return exp

    def kids(self, depth, ev):
        out = []
        for i in range(self.rng.choice([0, 1, 1, 2, 3]) if depth < 5 else 0):
            out.append(self.node(depth + 1, ev))
        return out

    def element(self, tag, out_tag, depth, ev, kids=None):
        attrs = []
        pre = []
        if kids is None:
            exp = self.attrs(pre)
            attrs = exp
        ev.append(["start", out_tag, attrs])
        arg = self.word() if self.rng.random() < .5 else ""
        if arg:
            ev.append(["text", arg])
        ch = self.kids(depth, ev)
        ev.append(["end", out_tag])
        # attributes may be written anywhere among the children
        for p in pre:
            ch.insert(self.rng.randrange(len(ch) + 1), p)
        # in the order they are found
        found = []
        for c in ch:
            if c.tag == "with":
                found += [(o.tag, o.arg) for o in c.children]
            elif c.tag[-1:] == "=":
                found.append((c.tag[:-1], c.arg))
        attrs[:] = found
        return self.N(tag, arg, ch)

    def char(self, ev, depth):
        rng = self.rng
        r = rng.random()
        if r < .5:
            # (two names have changed their meaning in HTML 5)
            arg = rng.choice(sorted(set(html.entities.name2codepoint) - {"lang", "rang"}))
            c = chr(html.entities.name2codepoint[arg])
        else:
            k = rng.choice([38, 60, 62, 34, 39, 64, 65, 169, 233, 0x3b1, 0x2026, 0x4e2d, 0x1f600, 0x153, rng.randrange(0xa0, 0x2300)])
            c = chr(k)
            arg = "0x%x" % k if r < .75 else "%d" % k
        ev.append(["text", c])
        ch = []
        if rng.random() < .3:
            t = self.word()
            ch.append(self.N("text", t))
            ev.append(["text", t])
        return self.N("char", arg, ch)

    def node(self, depth, ev):
        rng, N = self.rng, self.N
        r = rng.random()
        if r < .2:
            t = self.word()
            ev.append(["text", t])
            ch = []
            if rng.random() < .2:
                ch.append(self.char(ev, depth))
            return N(rng.choice(["text", "text", "symbol"]), t, ch)
        if r < .3:
            return self.char(ev, depth)
        if r < .5:
            t = rng.choice(INLINE + BLOCK)
            return self.element(t, t, depth, ev)
        if r < .55:
            return self.element("literal_block", "pre", depth, ev)
        if r < .62:
            # the parts of a list
            tag = rng.choice(["itemize", "enumerate"])
            o = "ul" if tag == "itemize" else "ol"
            ev.append(["start", o, []])
            ch = []
            for i in range(rng.randrange(4)):
                ev.append(["start", "li", []])
                ch.append(self.node(depth + 1, ev))
                ev.append(["end", "li"])
            ev.append(["end", o])
            return N(tag, "", ch)
        if r < .68:
            o, i = rng.choice([("ul", "li"), ("ol", "li"), ("tr", "td"), ("dl", "dd"), ("table", "tr")])
            pre = []
            ev.append(["start", o, []])
            ch = [self.element(i, i, depth + 1, ev) for j in range(rng.randrange(3))]
            ev.append(["end", o])
            return N(o, "", ch)
        if r < .72:
            tag = rng.choice(["hr", "img"])
            pre = []
            exp = self.attrs(pre)
            ev.append(["void", tag, exp])
            return N(tag, "", pre)
        if r < .82:
            if rng.random() < .45:
                n = rng.choice(self.names)
                ev.append(["start", "a", [("name", ["def", n])]])
                ch = self.kids(depth, ev)
                ev.append(["end", "a"])
                return N("define", TGT + n, ch)
            n = rng.choice(self.names)
            i = len(ev)
            ev.append(["link", n, None])
            ch = self.kids(depth, ev)
            if not ch:
                ev.append(["text", TGT + n])
            ev.append(["endlink", i])
            return N("link_to", TGT + n, ch)
        if r < .88:
            return N(rng.choice(CLEAR), "", self.kids(depth, ev))
        if r < .94:
            tag = rng.choice(["comment", "to_tester_only", "with", "exdefs"])
            if tag == "exdefs":
                return N(tag, "", [N("x", "a, b")])
            return N(tag, self.word(), [N("text", self.word())] if tag != "with" else [])
        if r < .96:
            ev += [["start", "code", []], ["text", ":"], ["end", "code"], ["text", "\xa0"]]
            return N("spc_colonkind", "")
        if r < .98:
            ev += [["text", " "], ["start", "strong", []], ["text", "->"], ["end", "strong"], ["text", " "]]
            return N("spc_mapsto", "")
        k = "%d" % rng.randrange(100)
        ev.append(["void", "col", [("width", k)]])
        return N("col_width", k)

    def document(self):
        rng, N = self.rng, self.N
        ev = []
        ch = []
        for i in range(rng.randrange(1, 7)):
            r = rng.random()
            if r < .06:
                t = self.word()
                ch.append(N("document_title", t))
                self.head += [["start", "title", []], ["text", t], ["end", "title"]]
            elif r < .1:
                t = self.word()
                ch.append(N("author", t))
                self.head.append(["void", "meta", [("name", "author"), ("content", t)]])
            elif r < .14 and self.lang is None:
                self.lang = rng.choice(["sv", "en", "de", "x-y"])
                ch.append(N("document_lang", self.lang))
            elif r < .18:
                t, a = self.word(), self.word()
                m = [N("meta", "", [N("name=", a), N("content=", t)])]
                self.head.append(["void", "meta", [("name", a), ("content", t)]])
                ch.append(N("header", "", m) if rng.random() < .5 else m[0])
            elif r < .21:
                t = self.word()
                ch.append(N("title", t))
                self.head += [["start", "title", []], ["text", t], ["end", "title"]]
            else:
                ch.append(self.node(0, ev))
        return N("document", "", ch), ev

    def break_it(self, doc):
        """Something that can't be written."""
        rng, N = self.rng, self.N
        what = rng.randrange(5)
        x = [N("img", "text"), N("img", "", [N("text", "x")]), N("nosuchtag", "x"), N("char", "nosuchchar"),
             N("p", "", [N("ul", "", [N("img", "", [N("em", "x")])])])][what]
        doc.children = tuple(doc.children[:1]) + (N("p", "x", [x]) if what != 4 and rng.random() < .5 else x,) + tuple(doc.children[1:])


class Seen(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.ev = []

    def handle_starttag(self, tag, attrs):
        self.ev.append(["start", tag, attrs])

    def handle_startendtag(self, tag, attrs):
        self.ev.append(["void", tag, attrs])

    def handle_endtag(self, tag):
        self.ev.append(["end", tag])

    def handle_data(self, d):
        if self.ev and self.ev[-1][0] == "text":
            self.ev[-1][1] += d
        else:
            self.ev.append(["text", d])

    def handle_comment(self, d):
        self.ev.append(["comment", d])

    def handle_pi(self, d):
        self.ev.append(["pi", d])

    def handle_decl(self, d):
        self.ev.append(["decl", d])


VOID = ("meta", "link", "img", "hr", "col")


def see(text, xml):
    """What a browser sees, or a message."""
    p = Seen()
    p.feed(text)
    p.close()
    out, stack = [], []
    for e in p.ev:
        if e[0] == "start" and e[1] in VOID:
            if xml:
                return "the element %s is not closed" % e[1]
            e = ["void"] + e[1:]
        if e[0] == "start":
            stack.append(e[1])
        elif e[0] == "end" and e[1] in VOID and not xml:
            # (it ends nothing)
            continue
        elif e[0] == "end":
            if not stack or stack.pop() != e[1]:
                return "unbalanced end of %s" % e[1]
        elif e[0] in ("comment", "pi"):
            return "%s %r appears" % (e[0], e[1])
        out.append(e)
    if stack:
        return "%s is not ended" % stack
    return out


def strip(ev):
    """Without white space between tags."""
    return [e for e in ev if not (e[0] == "text" and not e[1].strip(" \n\t"))]


def compare(want, got):
    """Text pieces in order, with at most white space added between them."""
    i = j = 0
    while True:
        ps = []
        while i < len(want) and want[i][0] == "text":
            ps.append(want[i][1])
            i += 1
        d = ""
        while j < len(got) and got[j][0] == "text":
            d += got[j][1]
            j += 1
        at = 0
        for p in ps:
            k = at
            while not d.startswith(p, k):
                if k >= len(d) or d[k] not in " \n":
                    break
                k += 1
            if not d.startswith(p, k):
                return "text %r, expected the pieces %r" % (d[:200], [x[:60] for x in ps])
            at = k + len(p)
        if d[at:].strip(" \n"):
            return "text %r, expected the pieces %r" % (d[:200], [x[:60] for x in ps])
        if i >= len(want) or j >= len(got):
            if i < len(want) or j < len(got):
                return "%r, expected %r" % (got[j:j + 2], want[i:i + 2])
            return None
        if want[i] != got[j]:
            return "%r, expected %r" % (got[j], want[i])
        i += 1
        j += 1


class Doc:
    def __init__(self, name, node, N, env):
        self.name, self.node, self.env = name, node, env
        self.doc_name_node = N("text", name)

    def get_result(self):
        return self.node

    def get_doc_name(self):
        return self.name


class Env:
    def error(self, msg, *a, **k):
        raise ValueError(msg)


def anchor(rng):
    r = rng.random()
    if r < .4:
        return rng.choice(["heapykinds.Use", "a-b", "a", "A", "z", "zz", "z1", "1", "-", "--", "", "_x", ".x", "a--b", "x-45-y", "x-y", "x.y:z"])
    return "".join(rng.choice("azAZ09-_:.  <&\"'\xe9\u4e2d") for i in range(rng.randrange(1, 6))).strip()


def documents(w, rng, guppy, which):
    gsl = guppy.Root().guppy.gsl
    M = getattr(gsl, which)
    xml = which == "XHTML"
    N = gsl.SpecNodes.node_of_taci
    names = list({anchor(rng) for i in range(rng.randrange(1, 7))})
    docs, given = [], []
    for i in range(rng.choice([1, 2, 3])):
        g = Given(w, rng, N, names)
        node, ev = g.document()
        docs.append(Doc("doc%d" % i, node, N, Env()))
        given.append((g, ev))

    def rep(node, t=0):
        return "%s%s %r\n" % ("." * t, node.tag, node.arg) + "".join(rep(c, t + 1) for c in node.children)
    story = "".join("--- %s\n%s" % (d.name, rep(d.node)) for d in docs)[:6000]

    def bad(key, msg):
        w.violate("%s:%s" % (which, key), "%s\n%s" % (msg, story))
    # where each name is defined: the first wins
    defs = {}
    for d, (g, ev) in zip(docs, given):
        for e in ev:
            if e[0] == "start" and e[1] == "a" and e[2] and type(e[2][0][1]) is list:
                defs.setdefault(e[2][0][1][1], d.name)
    env = gsl.Main.SpecEnv(gsl.Main)
    env.link_documents(docs)
    # names
    enc = {}
    for n in names:
        x = M.encode_name(n)
        if not re.fullmatch(r"[A-Za-z][A-Za-z0-9\-_:.]*", x):
            return bad("name-form", "the name %r is written %r" % (n, x))
        if enc.setdefault(x, n) != n:
            return bad("name-clash", "%r and %r are both written %r" % (n, enc[x], x))
        w.event("name")
    code = {n: x for x, n in enc.items()}
    outs = {}
    for d, (g, ev) in zip(docs, given):
        text = M.doc2text(d, d.node) if rng.random() < .5 else M.node2text(d.node)
        body = []
        for e in ev:
            if e[0] == "link":
                n = e[1]
                if n not in defs:
                    e[2] = "em"
                    body.append(["start", "em", []])
                else:
                    e[2] = "a"
                    body.append(["start", "a", [("href", ("" if defs[n] == d.name else defs[n] + ".html") + "#" + code[n])]])
            elif e[0] == "endlink":
                body.append(["end", ev[e[1]][2]])
            elif e[0] == "start" and e[2] and type(e[2][0][1]) is list:
                body.append(["start", "a", [("name", code[e[2][0][1][1]])]])
            else:
                body.append(e)
        got = see(text, xml)
        if type(got) is str:
            return bad("malformed", got)
        if not got or got[0][0] != "decl" or not got[0][1].lower().startswith("doctype html"):
            return bad("doctype", "begins with %r" % (got[:1],))
        hattr = [("lang", g.lang or "en")] + ([("xmlns", "http://www.w3.org/1999/xhtml")] if xml else [])
        want = [["start", "html", hattr], ["start", "head", []],
                ["void", "meta", [("http-equiv", "Content-Type"), ("content", "text/html; charset=utf-8")]]]
        want += g.head + [["end", "head"], ["start", "body", []], ["start", "div", []]] + body
        got = got[1:]
        if not xml:
            # who made it and when
            k = max((i for i, e in enumerate(got) if e[0] == "void" and e[1] == "hr"), default=None)
            if k is None or "Generated by" not in str(got[k + 1:]):
                return bad("trailer", "no trailer: %r" % got[-6:])
            end = [e for e in got[k + 1:] if e[0] == "end"][-3:]
            got = got[:k] + end
        want += [["end", "div"], ["end", "body"], ["end", "html"]]
        msg = compare(want, got)
        if msg:
            return bad("document", "%s is written with %s" % (d.name, msg))
        outs[d.name] = {dict(e[2]).get("name") for e in got if e[0] == "start" and e[1] == "a"}, [dict(e[2])["href"] for e in got if e[0] == "start" and e[1] == "a" and "href" in dict(e[2])]
        w.event("document")
        w.event("element", sum(e[0] in ("start", "void") for e in got))
        w.event("text", sum(e[0] == "text" for e in got))
    # every link leads to a name
    for dn, (_, hrefs) in outs.items():
        for h in hrefs:
            f, _, a = h.partition("#")
            t = f[:-5] if f else dn
            if t not in outs or a not in outs[t][0]:
                return bad("dangling", "%s in %s leads nowhere" % (h, dn))
            w.event("link")
    w.case(sig=(which, story[:500]), sample={"documents": story[:700]})
    if rng.random() < .1:
        # written as it is given as text; some 's is a time
        d = docs[0]
        p = os.path.join(w.scratch, "x.html")
        M.node2file(d.node, p)
        with open(p) as f:
            a = f.read()
        os.unlink(p)
        b = M.node2text(d.node)
        cut = (lambda s: s) if xml else (lambda s: s[:s.rindex("Generated by")])
        if cut(a) != cut(b):
            bad("file", "the file differs from the text")
        w.event("file")
    if rng.random() < .15:
        given[0][0].break_it(docs[0].node)
        try:
            M.doc2text(docs[0], docs[0].node)
        except ValueError:
            pass
        else:
            bad("not-rejected", "what can't be written is accepted: %s" % rep(docs[0].node)[:1500])
        w.event("rejected")


def run(w):
    import guppy
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        with contextlib.redirect_stdout(io.StringIO()):
            documents(w, w.rng, guppy, "XHTML" if i % 2 else "Html")


if __name__ == "__main__":
    vw.main(run)


if __name__ == "__main__":
    vw.main(run)
