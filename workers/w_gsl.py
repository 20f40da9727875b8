"""L01: dotted trees, specification nodes, filing and markup of guppy.gsl keep what they are given."""
import contextlib
import html
import io
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vw

ALIASES = {"attr": "attribute", "c": "comment", "cond": "condition", "d": "description", "dwh": "description_with_header",
           "eg": "example", "fop": "function_operator", "iop": "inplace_operator", "ka": "key_arg", "op": "operator",
           "rop": "reverse_operator", "t": "text"}


def reftree(text, dot, quote):
    """The tree a dotted text denotes (from its description), or None if a level is skipped."""
    root = [[], 0, []]
    path = [root]
    node = root
    for i, line in enumerate(text.split("\n") if text else []):
        n = len(line) - len(line.lstrip(dot))
        if n:
            if n > len(path):
                return None
            del path[n:]
            node = [[line[n:]], i, []]
            path[-1][2].append(node)
            path.append(node)
        else:
            node[0].append(line)

    def conv(node, top):
        lines = []
        for t in node[0]:
            q = len(t) - len(t.lstrip(quote))
            if q and t[q:q + 1] == dot:
                t = t[1:]
            lines.append(t)
        tag = "\n".join(lines)
        if top and lines == [""]:
            tag = "\n"
        return (tag, node[1], [conv(c, False) for c in node[2]])
    return conv(root, True)


def sexpr(t):
    return (t[0],) + tuple(sexpr(c) for c in t[2])


def indices(t):
    return [t[1]] + [x for c in t[2] for x in indices(c)]


def node_indices(n):
    return [n.index] + [x for c in n.children for x in node_indices(c)]


class Gen:
    def __init__(self, rng, dot, quote):
        self.rng = rng
        self.chars = [dot, dot, quote, quote, "\n", " ", "a", ":", "=", "b", "\u00e9", "\r", "\t", "\x0c", "\u2028", "~", "."]

    def tag(self, k=None):
        rng = self.rng
        if k is None:
            k = rng.choice([0, 0, 1, 1, 2, 3, 5, 9])
        return "".join(rng.choice(self.chars) for _ in range(rng.randrange(k + 1)))

    def tree(self, depth):
        rng = self.rng
        n = rng.choice([0, 1, 1, 2, 3]) if depth else 0
        return (self.tag(),) + tuple(self.tree(depth - 1) for _ in range(n))

    def chain(self, n):
        t = (self.tag(),)
        for _ in range(n):
            t = (self.tag(), t) if self.rng.random() < .8 else (self.tag(), t, (self.tag(),))
        return t

    def text(self):
        rng = self.rng
        lines = []
        cur = 0
        for _ in range(rng.randrange(12)):
            r = rng.random()
            if r < .5:
                cur = rng.randrange(1, cur + 2 if rng.random() < .9 else cur + 3)
                lines.append(self.chars[0] * cur + self.tag().replace("\n", ""))
            else:
                lines.append(self.tag().replace("\n", ""))
        return "\n".join(lines)


def dotted(w, rng, guppy):
    gsl = guppy.Root().guppy.gsl
    dt = gsl.DottedTree
    dot, quote = ".", "\\"
    if rng.random() < .4:
        dot = rng.choice([",", "*", "|", " ", "a"])
        dt.dotchar = dot
    sx = rng.random() < .5
    if sx:
        dt.node = dt.node_sexpr
    g = Gen(rng, dot, quote)
    for _ in range(40):
        if rng.random() < .6:
            x = g.tree(rng.choice([0, 1, 2, 3, 5])) if rng.random() < .95 else g.chain(rng.choice([20, 100]))
            w.beat("dotted %r %r" % (dot, x))
            t = dt.unparse_sexpr(x)
            y = dt.parse_string(t)
            got = y if sx else y.as_sexpr()
            if got != x:
                w.violate("dotted:tree", "unparsed and parsed with %r, the tree %.600r is %.600r; the text %.600r" % (dot, x, got, t))
            if not sx and dt.unparse_node(y) != t:
                w.violate("dotted:node-text", "the nodes parsed from %.600r give the text %.600r" % (t, dt.unparse_node(y)))
            w.event("tree")
        else:
            t = g.text()
            w.beat("dotted %r text %r" % (dot, t))
            x = None
        ref = reftree(t, dot, quote)
        try:
            y = dt.parse_string(t)
        except SyntaxError as e:
            if ref is not None:
                w.violate("dotted:refused", "the text %.600r with %r is refused: %s" % (t, dot, e))
            w.event("malformed")
            continue
        if ref is None:
            w.violate("dotted:accepted", "the text %.600r with %r skips a level and is accepted" % (t, dot))
            continue
        if (y if sx else y.as_sexpr()) != sexpr(ref):
            w.violate("dotted:parse", "the text %.600r with %r is parsed as %.600r, not %.600r" % (t, dot, y if sx else y.as_sexpr(), sexpr(ref)))
            continue
        if not sx and node_indices(y) != indices(ref):
            w.violate("dotted:index", "the lines of the nodes of %.600r are %r, not %r" % (t, node_indices(y), indices(ref)))
        u = dt.unparse_sexpr(sexpr(ref))
        if u.strip() != t.strip() if ref[0] != "\n" else u.strip("\n") != t.strip("\n"):
            w.violate("dotted:text", "the text %.600r with %r becomes %.600r" % (t, dot, u))
        w.event("text")
        w.case(sig=("dotted", dot, sx, t[:200]))


WORD = "abcdefgh_tdcXYZ09"


def spec_tree(rng, depth, g):
    """-> (tag, arg, text, children) as written"""
    words = ["".join(rng.choice(WORD) for _ in range(rng.randrange(1, 6))) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    if rng.random() < .3:
        words = [rng.choice(list(ALIASES) + ["text", "text", "with", "default", "key arg"])]
    tag = " ".join(words)
    arg = rng.choice(["", "", "x", ":y", "a b", "1 = 2", "a, b,c", g.tag(4).replace("\n", " ")])
    text = rng.choice(["", "", "line", "two\nlines", g.tag(6), "\n", " x "])
    if not arg.strip():
        arg = ""
    if not arg and " " in tag:
        text = ""
    kids = [spec_tree(rng, depth - 1, g) for _ in range(rng.choice([0, 1, 2, 3]))] if depth else []
    return tag, arg, text, kids


def spec_write(S, t, level, out):
    tag, arg, text, kids = t
    out.append(S.unparse_head(level, tag, arg, text))
    for k in kids:
        spec_write(S, k, level + 1, out)


def spec_expect(t, nostrip):
    tag, arg, text, kids = t
    a = ""
    if arg:
        a = " " + arg
        if text:
            a += "\n" + text
    else:
        a = text
    tag = ALIASES.get(tag, tag).replace(" ", "_")
    if tag != "text" and not nostrip:
        a = a.strip()
    return tag, a, [spec_expect(k, nostrip) for k in kids]


def spec_got(n):
    return n.tag, n.arg, [spec_got(c) for c in n.children]


def specnodes(w, rng, guppy):
    gsl = guppy.Root().guppy.gsl
    S = gsl.SpecNodes
    g = Gen(rng, ".", "\\")
    for _ in range(15):
        nostrip = rng.random() < .3
        forest = [spec_tree(rng, rng.choice([0, 1, 2, 3]), g) for _ in range(rng.randrange(4))]
        head = rng.choice(["", "", "title", "a\nb", g.tag(3)])
        out = [S.DottedTree.unparse_tag(0, head)] if head or not forest else []
        for t in forest:
            spec_write(S, t, 1, out)
        text = "\n".join(out)
        w.beat("spec nodes %r" % text)
        n = S.node_of_string(text, "some name", nostrip)
        exp = [spec_expect(t, nostrip) for t in forest]
        if head.strip():
            exp.insert(0, ("text", head.strip(), []))
        if (n.tag, n.arg) != ("string", "some name") or [spec_got(c) for c in n.children] != exp:
            w.violate("spec:nodes", "the text %.800r gives %.800r, not %.800r" % (text, [spec_got(c) for c in n.children], exp))
        w.event("spec-nodes", 1 + text.count("\n"))
        # the same through a file, and included from another one
        d = w.scratch
        f1, f2 = os.path.join(d, "spec.gsl"), os.path.join(d, "outer.gsl")
        try:
            # (universal newlines: files are read as texts)
            if "\r" not in text:
                with open(f1, "w") as f:
                    f.write(text)
                n1 = S.node_of_file(f1, nostrip)
                if [spec_got(c) for c in n1.children] != exp:
                    w.violate("spec:file", "the file %.800r gives %.800r, not %.800r" % (text, [spec_got(c) for c in n1.children], exp))
                with open(f2, "w") as f:
                    f.write(".before\n.include: spec.gsl\n.after: x")
                n2 = S.node_of_file(f2, nostrip)
                after = ("after", " x" if nostrip else "x", [])
                if [spec_got(c) for c in n2.children] != [("before", "", [])] + exp + [after]:
                    w.violate("spec:include", "the file %.800r included gives %.800r" % (text, [spec_got(c) for c in n2.children]))
                w.event("spec-file")
        finally:
            for f in (f1, f2):
                if os.path.exists(f):
                    os.remove(f)
        walk(w, rng, n)
        # any text, as nodes of text and characters
        t = "".join(rng.choice(["a", " ", "\n", "\x7f", "\x80", "\u00e9", "\u4e2d", "\U0001f600", "\uffff", ".", "&"]) for _ in range(rng.randrange(12)))
        nodes = S.nodes_of_text(t)
        back = "".join(x.arg if x.tag == "text" else chr(int(x.arg)) for x in nodes)
        if back != t or any(x.tag not in ("text", "char") or x.children or (x.tag == "text" and not x.arg and t) for x in nodes):
            w.violate("spec:characters", "the nodes of the text %r are %r" % (t, nodes))
        if any(ord(c) > 127 and ord(c) < 0x10000 for x in nodes if x.tag == "text" for c in x.arg):
            w.violate("spec:ascii", "the nodes of the text %r are %r" % (t, nodes))
        b = S.node_of_text(t)
        if spec_got(b) != spec_got(nodes[0]) if len(nodes) == 1 else (b.tag, b.arg, [spec_got(c) for c in b.children]) != ("block", "", [spec_got(c) for c in nodes]):
            w.violate("spec:block", "the node of the text %r is %r" % (t, b))
        w.event("characters")
        w.case(sig=("spec", text[:200], nostrip))


class Visitor:
    def __init__(self, names):
        self.seen = []
        for n in names:
            setattr(self, "visit_" + n, lambda node, n=n: self.seen.append((n, node)))

    def visit_default(self, node):
        self.seen.append((None, node))


def walk(w, rng, n):
    todo = [n]
    while todo:
        x = todo.pop()
        todo += x.children
        texts = [c.arg for c in x.children if c.tag == "text"]
        if x.get_text() != "".join(t if t.endswith("\n") else t + "\n" for t in texts):
            w.violate("spec:get_text", "the text of %.600r is %.600r" % (x, x.get_text()))
        a = x.arg.strip()
        if x.get_arg() != (a[1:].strip() if a[:1] == ":" else a):
            w.violate("spec:get_arg", "the argument of %.600r is %.600r" % (x, x.get_arg()))
        names = [y.strip() for y in (x.arg[1:] if x.arg[:1] == ":" else x.arg).split(",")]
        if x.get_arglist() != ([] if names == [""] else names):
            w.violate("spec:get_arglist", "the arguments of %.600r are %.600r" % (x, x.get_arglist()))
        if x.get_arg_rest() != (a, x.children) or x.get_arg_rest(1) != (x.arg, x.children):
            w.violate("spec:get_arg_rest", "of %.600r" % (x,))
        try:
            r = x.get_namearg()
        except SyntaxError:
            r = None
        if r != (None if set(a) & set("\n:,") else a):
            w.violate("spec:get_namearg", "the name of %.600r is %.600r" % (x, r))
        try:
            r = x.get_arg_norest()
        except SyntaxError:
            r = None
        if r != (None if x.children else a):
            w.violate("spec:get_arg_norest", "of %.600r: %.600r" % (x, r))
        exp = [spec_got(c) for c in x.children]
        if x.arg:
            exp.insert(0, ("text", x.arg, []))
        if [spec_got(c) for c in x.get_arg_children()] != exp:
            w.violate("spec:get_arg_children", "of %.600r" % (x,))
        # each child is visited once, in order, by the method named after it
        names = set(rng.choice(["text", "with", "d", "abc", "a", "comment"]) for _ in range(2)) | ({x.children[0].tag} if x.children and rng.random() < .5 else set())
        names.discard("default")        # what is called for the others
        v = Visitor(names)
        x.arg_accept(v)
        if [(t if t in names else None, t, a, k) for t, a, k in exp] != [(n, c.tag, c.arg, spec_got(c)[2]) for n, c in v.seen]:
            w.violate("spec:visit", "the visitor of %.600r with %r saw %.600r" % (x, names, v.seen))
        y, attrs = x.split_attrs() if not any(c.tag == "with" for c in x.children) else (None, None)
        if y is not None:
            ea = [(c.tag[:-1], c.arg) for c in x.children if c.tag[-1:] == "="]
            ec = [c for c in x.children if c.tag[-1:] != "="]
            if attrs != ea or list(y.children) != ec or (y.tag, y.arg) != (x.tag, x.arg):
                w.violate("spec:split_attrs", "of %.600r: %.600r %.600r" % (x, y, attrs))
        c = x.copy(arg="other")
        if (c.tag, c.arg, c.children, c.index, c.src) != (x.tag, "other", x.children, x.index, x.src):
            w.violate("spec:copy", "of %.600r: %.600r" % (x, c))
        w.event("node-methods")


def attributes(w, rng, guppy):
    """Attributes, as .with and as name=value."""
    S = guppy.Root().guppy.gsl.SpecNodes
    for _ in range(10):
        exp, out, kids = [], [".x: y"], []
        for i in range(rng.randrange(6)):
            r = rng.random()
            name = "n%d" % rng.randrange(20)
            if r < .4:
                v = rng.choice(["v", "1:2", "a=b", "x y"])
                out.append("..%s%s=%s%s" % (name, rng.choice(["", " "]), rng.choice(["", " "]), v))
                exp.append((name, v))
            elif r < .7:
                out.append("..with")
                for j in range(rng.randrange(1, 4)):
                    v = rng.choice(["v", "w x", "=", "1"])
                    out.append("...%s%d: %s" % (name, j, v))
                    exp.append(("%s%d" % (name, j), v))
            else:
                out.append("..%s" % name)
                kids.append(name)
        n = S.node_of_string("\n".join(out)).children[0]
        y, attrs = n.split_attrs()
        if attrs != exp or [c.tag for c in y.children] != kids or (y.tag, y.arg) != ("x", "y"):
            w.violate("spec:attributes", "of %r: %r and %r, expected %r" % (out, attrs, y, exp))
        if len(set(dict(exp))) == len(exp):
            y, attrs = n.split_attrs(attrdict=True)
            if attrs != dict(exp):
                w.violate("spec:attribute-dict", "of %r: %r" % (out, attrs))
        w.event("attributes", len(exp))
        w.case(sig=("attrs", tuple(out)))


def filing(w, rng, guppy):
    gsl = guppy.Root().guppy.gsl
    test = rng.random() < .3
    if test:
        gsl.FileIO.set_test_mode()
    suffix = rng.choice([",gsl-backuped", ",gsl-backuped", ".old", None])
    if suffix != ",gsl-backuped":
        gsl.Filer.backup_suffix = suffix
    F, S, IO = gsl.Filer, gsl.SpecNodes, gsl.FileIO.IO
    g = Gen(rng, ".", "\\")
    d = os.path.join(w.scratch, "filer")
    os.mkdir(d)
    model = {}

    def state():
        if test:
            return dict(IO.files)
        r = {}
        for n in os.listdir(d):
            with open(os.path.join(d, n), newline="", encoding=enc) as f:
                r[os.path.join(d, n)] = f.read()
        return r
    enc = None
    try:
        for turn in range(rng.choice([1, 3, 6])):
            names = [os.path.join(d, n) for n in rng.sample(["a", "b", "c d", "e.f", "g,h"], rng.choice([1, 1, 2, 4]))]
            out = [""]
            new = {}
            for n in names:
                out.append(".write file: " + n)
                k = rng.random()
                if k < .1:
                    new[n] = ""
                else:
                    data = rng.choice(["", "hello", "hello\n", "\n\n", g.tag(9), "".join(g.tag(9) + "\n" for _ in range(5))])
                    data = data.encode(sys.getfilesystemencoding() if not test else "utf-8", "replace").decode(sys.getfilesystemencoding() if not test else "utf-8")
                    if data:
                        out.append(S.DottedTree.unparse_tag(2, "text\n" + data))
                    else:
                        out.append("..text")
                    new[n] = data
                    if k < .8:
                        out.append("..end")
            dup = rng.random() < .1
            if dup:
                out += [".write file: " + names[0], "..text", "x", "..end"]
            text = "\n".join(out)
            w.beat("filer %r" % text)
            node = S.node_of_string(text)
            try:
                f = F.filer(node)
            except SyntaxError:
                if not dup:
                    raise
                f = None
            else:
                if dup:
                    w.violate("filer:duplicate", "a file that is written twice is accepted")
                    continue
            if state() != model:
                w.violate("filer:early", "files changed before they were written: %.500r, %.500r" % (state(), model))
            if f is None:
                continue
            if f.get_info() != "\n".join("write file: " + n for n in names):
                w.violate("filer:info", "%r" % f.get_info())
            f.write()
            for n in names:
                if suffix and n in model:
                    model[n + suffix] = model[n]
                model[n] = new[n]
            got = state()
            if got != model:
                bad = [n for n in set(got) | set(model) if got.get(n) != model.get(n)]
                w.violate("filer:content" if bad[0] in new else "filer:backup", "after writing %.500r the file %s is %.300r, not %.300r" % (text, bad[0][len(d):], got.get(bad[0]), model.get(bad[0])))
                return
            for n in names:
                if "\r" not in model[n] and IO.read_file(n) != model[n]:
                    w.violate("filer:read", "the file %r is read as %r" % (model[n], IO.read_file(n)))
            w.event("files", len(names))
        w.case(sig=("filer", test, suffix, len(model), turn))
    finally:
        for n in os.listdir(d):
            os.remove(os.path.join(d, n))
        os.rmdir(d)


TAGS = ["em", "b", "table", "x", "ns:y", "h1", "use_my_macro", "div"]


def markup(w, rng, guppy):
    M = guppy.Root().guppy.gsl.Gsml

    def make(depth):
        """-> (html, expected)"""
        parts, exp = [], []
        for _ in range(rng.randrange(4)):
            r = rng.random()
            if r < .45 and not (exp and isinstance(exp[-1], str)):
                t = "".join(rng.choice(["a", "b", " ", "<", "&", ">", '"', "\u00e9", "\u4e2d", "1", ";"]) for _ in range(rng.randrange(1, 8)))
                h = "".join(rng.choice([html.escape(c), "&#%d;" % ord(c), "&#x%x;" % ord(c)]) if rng.random() < .3 else html.escape(c) for c in t)
                parts.append(h)
                exp.append(t)
            elif r < .85 and depth:
                tag = rng.choice(TAGS)
                attrs = [("k%d" % i, rng.choice(["v", "a b", "<&\"'>", "\u00e9", "1"])) for i in range(rng.choice([0, 0, 1, 2]))]
                a = "".join(' %s="%s"' % (k, html.escape(v)) for k, v in attrs)
                h, e = make(depth - 1)
                if not e and rng.random() < .5:
                    parts.append("<%s%s/>" % (tag, a))
                else:
                    parts.append("<%s%s>%s</%s>" % (tag, a, h, tag))
                exp.append((tag, attrs, e))
            elif r < .95:
                parts.append("<!-- comment %d -->" % len(parts))
                exp.append(("comment", " comment %d " % (len(parts) - 1)))
        return "".join(parts), exp

    def got(n):
        attrs, kids = [], []
        for c in n.children:
            if c.tag in ("text", "char"):
                s = c.arg if c.tag == "text" else chr(int(c.arg))
                if kids and isinstance(kids[-1], str):
                    kids[-1] += s
                else:
                    kids.append(s)
            elif c.tag == "comment":
                kids.append(("comment", c.arg))
            elif c.tag == "with":
                attrs += [(a.tag, a.arg) for a in c.children]
            else:
                kids.append(got(c))
        return n.tag, attrs, kids

    def norm(e):
        return [x if isinstance(x, str) or x[0] == "comment" else (x[0], x[1], norm(x[2])) for x in e if not (isinstance(x, str) and not x.strip())]
    for _ in range(15):
        h, e = make(rng.choice([0, 1, 2, 4]))
        w.beat("markup %r" % h)
        n = M.node_of_gsml(h)
        r = got(n)
        if r != ("block", [], norm(e)):
            w.violate("markup", "%.800r gives %.800r, not %.800r" % (h, r, norm(e)))
        try:
            M.node_of_gsml("<em>" + h)
        except SyntaxError:
            pass
        else:
            w.violate("markup:unclosed", "a missing end tag is not reported")
        w.event("markup")
        w.case(sig=("markup", h[:200]))


def run(w):
    import guppy
    rng = w.rng
    i = 0
    fs = [dotted, specnodes, attributes, filing, markup]
    while w.more(i, w.args["n"]):
        f = fs[i % len(fs)]
        i += 1
        with contextlib.redirect_stdout(io.StringIO()):
            f(w, rng, guppy)


if __name__ == "__main__":
    vw.main(run)
