"""Reference pattern monitor: P02."""
import gc
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vw
from vheap import Env, ids, tyname
from vgraph import closure, describe

LINE = re.compile(r" *(\d+): ([^ ]+) +-* *\[(\^ \d+|[RS+-])\] (\d+) ")


def name_of(ixl):
    """The label of a row: one letter a level, three and more alike are counted."""
    if not ixl:
        return "_"
    out = ""
    i = 0
    while i < len(ixl):
        j = i
        while j < len(ixl) and ixl[j] == ixl[i]:
            j += 1
        c = chr(97 + ixl[i])
        out += c * (j - i) if j - i <= 2 else "%s%d" % (c, j - i)
        i = j
    return out


class Node:
    __slots__ = "set", "ixl", "depth", "mark", "parent", "index", "kids", "expand"


class Tree:
    """The pattern as the definition has it.  image(ids) -> {id: object}."""

    def __init__(self, hp, X, image, er, depth, stop, nocyc, maxlines):
        self.hp, self.image, self.er, self.depth, self.stop, self.nocyc = hp, image, er, depth, stop, nocyc
        self.lines = []
        self.seen = {}
        self.max = maxlines
        self.full = True
        self.go(X, [], None)

    def rows(self, objs):
        if not objs:
            return []
        return [ids(r.set.nodes) for r in self.hp.idset(objs.values()).by(self.er).partition.get_rows()]

    def go(self, X, ixl, parent):
        if len(self.lines) >= self.max:
            self.full = False
            return
        n = Node()
        n.set, n.ixl, n.parent = X, list(ixl), parent
        n.depth = len(ixl)
        n.index = len(self.lines)
        im = dict(self.image(X))
        if self.nocyc:
            p = n
            while p is not None:
                for i in p.set:
                    im.pop(i, None)
                p = p.parent
        stop = n.depth > 0 and all(self.stop(o) for o in X.values())
        key = frozenset(X)
        first = self.seen.get(key)
        if first is not None:
            n.mark = "^ %d" % first
        elif not im:
            n.mark = "R"
        elif stop:
            n.mark = "S"
        elif n.depth < self.depth:
            n.mark = "-"
        else:
            n.mark = "+"
        if first is None:
            self.seen[key] = n.index
        self.lines.append(n)
        n.expand = n.mark == "-"
        n.kids = []
        if n.expand:
            for k, r in enumerate(self.rows(im)):
                self.go(r, ixl + [k], n)


ERS = [None, None, "Type", "Size", "Clodo", "Unity", "Id", "Type&Size", "Rcs", "Module", "Via"]


def run_p02(w, e):
    hp, rng = e.hp, e.rng
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        g = e.graph(rng.choice([2, 4, 8, 14, 25]))
        if rng.random() < 0.25:
            wide(rng, g)
        e.setroot(g)
        for _ in range(3):
            one(w, e, g, i)
        e.done()


def wide(rng, g):
    """Many classes of referrers to one object, so that rows have labels beyond the letters."""
    t = rng.choice(g.objs)
    n = rng.choice([24, 27, 30, 83, 90])
    l = []
    for k in range(n):
        c = type("W%d" % k, (), {"__slots__": ("r",)})
        c.__module__ = "vgw"
        x = c()
        x.r = t
        l.append(x)
    g.root_hold(l) if hasattr(g, "root_hold") else g.objs.append(l)
    try:
        g.root.append(l)
    except AttributeError:
        g.link(g.objs[0], l)


def stop_default(hp):
    import types

    def f(o):
        t = type(o)
        if t in (types.ModuleType, type, types.CodeType, types.FrameType):
            return True
        if t is dict:
            k = hp.iso(o).byclodo.kind
            return k == hp.Module.dictof or k == hp.Type.Type.dictof or k == hp.Type.Module.dictof
        return False
    return f


def one(w, e, g, case):
    hp, rng = e.hp, e.rng
    X = [rng.choice(g.objs) for _ in range(rng.choice([1, 1, 1, 2, 4]))]
    er = rng.choice(ERS)
    depth = rng.choice([None, 0, 1, 2, 3, 4, 6])
    nocyc = rng.random() < 0.3
    mode = rng.choice(["ref", "ref", "ref", "ref", "imdom", "referents"])
    w.beat("P02 case %d %s er=%s depth=%s nocyc=%s target %s" % (case, mode, er, depth, nocyc, [describe(x) for x in X]))
    kw = {}
    if depth is not None:
        kw["depth"] = depth
    if er is not None:
        kw["er"] = getattr(hp, er) if er.isalpha() else hp.iso(1).by(er).er
    if nocyc:
        kw["nocyc"] = True
    stopk = rng.random()
    stop = None
    if stopk < 0.3:
        t = type(rng.choice(g.objs))
        kw["stopkind"] = hp.Type(t)
        stop = lambda o: type(o) is t
    elif stopk < 0.4:
        kw["stopkind"] = hp.Nothing
        stop = lambda o: False
    else:
        stop = stop_default(hp)
    if mode == "imdom":
        if rng.random() < 0.5:
            kw["imdom"] = 1
        else:
            kw["ref"] = "imdom"
    elif mode == "referents":
        kw["ref"] = lambda S: S.referents
    S = hp.idset(X)
    maxlines = rng.choice([40, 200])

    def chk():
        rp = S.get_rp(**kw)
        rp[0]
        gc.collect()
        cl = closure([g.root], e.edges)
        rev, out = {}, {}
        for o in cl.values():
            out[id(o)] = t = ids(e.edges(o))
            for j in t:
                rev.setdefault(j, {})[id(o)] = o

        def image(x):
            if mode == "imdom":
                return ids(hp.idset(x.values()).imdom.nodes)
            r = {}
            for i, o in x.items():
                r.update(rev.get(i, {}) if mode == "ref" else out[i] if i in out else ids(e.edges(o)))
            return r
        rp = S.get_rp(**kw)
        T = Tree(hp, ids(X), image, er or "Clodo", 7 if depth is None else depth, stop, nocyc, maxlines)
        return compare(w, e, rp, T, kw, mode, depth, er)
    e.settled(chk)


def compare(w, e, rp, T, kw, mode, depth, er):
    rng = e.rng
    what = "%s er=%s depth=%s %s" % (mode, er, depth, sorted(kw))
    lines = []
    how = rng.randrange(4)
    if how == 0 and T.full and len(rp) != len(T.lines):
        return "length:" + mode, "%s: %d rows, expected %d" % (what, len(rp), len(T.lines))
    if how == 1:
        # reach rows out of order, by their names
        for n in rng.sample(T.lines, min(5, len(T.lines))):
          try:
            r = getattr(rp, name_of(n.ixl)) if n.ixl and all(x < 26 for x in n.ixl) and name_of(n.ixl) not in dir(rp) else rp.get_row(name_of(n.ixl)).set
          except (AttributeError, ValueError):
            return "named:" + mode, "%s: there is no row %s" % (what, name_of(n.ixl))
          if ids(r.nodes).keys() != n.set.keys():
            return "named:" + mode, "%s: row %s has %d objects, expected %d" % (what, name_of(n.ixl), len(r.nodes), len(n.set))
          w.event("row-named")
    sets = []
    for k, s in enumerate(rp):
        if k >= len(T.lines):
            break
        sets.append(s)
    for k, n in enumerate(T.lines):
        if k >= len(sets):
            return "missing-row:" + mode, "%s: %d rows, expected %s" % (what, k, len(T.lines))
        got = ids(sets[k].nodes)
        if got.keys() != n.set.keys():
            return "row-set:" + mode, "%s: row %d (%s) has %d objects, expected %d; missing %s, too many %s" % (
                what, k, name_of(n.ixl), len(got), len(n.set), [describe(o) for i, o in n.set.items() if i not in got][:3],
                [describe(o) for i, o in got.items() if i not in n.set][:3])
        w.event("row")
        w.event("mark" + n.mark[0])
    if T.full:
        try:
            rp[len(T.lines)]
            return "extra-row:" + mode, "%s: there is a row %d" % (what, len(T.lines))
        except IndexError:
            pass
        if len(rp) != len(T.lines):
            return "length:" + mode, "%s: length %d, expected %d" % (what, len(rp), len(T.lines))
    for n in rng.sample(T.lines, min(6, len(T.lines))):
        nm = name_of(n.ixl)
        try:
            r = rp.get_row(nm)
        except ValueError:
            return "named:" + mode, "%s: there is no row %s" % (what, nm)
        if ids(r.set.nodes).keys() != n.set.keys() or ids(rp.get_row(n.index).set.nodes).keys() != n.set.keys():
            return "named:" + mode, "%s: row %s has %d objects, expected %d" % (what, nm, len(r.set.nodes), len(n.set))
        w.event("row-named")
    # the printed pattern
    cur = rp
    shown = 0
    texts = []
    while True:
        text = repr(cur)
        ls = text.split("\n")
        if shown == 0:
            if not ls[0].startswith("Reference Pattern by <"):
                return "label", "%s: label %r" % (what, ls[0])
            ls = ls[1:]
        more = None
        if ls and ls[-1].startswith("<") and "Type e.g. '_.more'" in ls[-1]:
            more = ls.pop()
        if not ls:
            return "empty-page", "%s: a page without rows after %d rows" % (what, shown)
        for ln in ls:
            if shown >= len(T.lines):
                if T.full:
                    return "printed-extra", "%s: line %r after the last row" % (what, ln)
                break
            n = T.lines[shown]
            m = LINE.match(ln)
            if not m:
                return "line", "%s: unreadable line %r" % (what, ln)
            exp = (str(shown), name_of(n.ixl), n.mark, str(len(n.set)))
            if m.groups() != exp:
                return "printed:" + ("mark" if m.group(3) != n.mark else "row"), "%s: line %r, expected %s; objects %s" % (
                    what, ln, exp, [describe(o) for o in n.set.values()][:4])
            if len(ln) > 80:
                return "long-line", "%s: line of %d characters %r" % (what, len(ln), ln)
            shown += 1
            w.event("line")
        if shown >= len(T.lines):
            if T.full and more:
                return "more-after-end", "%s: %r after all %d rows" % (what, more, shown)
            break
        if not more:
            return "no-more", "%s: %d rows shown of %d, and no more announced" % (what, shown, len(T.lines))
        m = re.match(r"<(\d+) more lines\.", more)
        if m and (not T.full or int(m.group(1)) != len(T.lines) - shown):
            return "remaining", "%s: %r after %d of %d rows" % (what, more, shown, len(T.lines))
        cur = cur.more
    if T.full and len(T.lines) < 60:
        al = [LINE.match(ln).group(1) for ln in repr(rp.all).split("\n")[1:]]
        if al != [str(k) for k in range(len(T.lines))]:
            return "all", "%s: all shows rows %s" % (what, al)
    w.case((mode, er, depth, len(T.lines), tuple(sorted({n.mark[0] for n in T.lines}))),
           sample="%s: %d rows, marks %s" % (what, len(T.lines), "".join(n.mark[0] for n in T.lines[:30])))
    if mode == "ref" and rng.random() < 0.5:
        return paths(w, e, rp, T)


PL = re.compile(r" *(\d+): ([^ ]+?) *\[(\d+)\] *([@=])(.*)", re.S)


def paths(w, e, rp, T):
    """Paths from a row to the target: every step is a relation, and no step is missing."""
    hp, rng = e.hp, e.rng
    cand = [n for n in T.lines if len(n.set) <= 6 and n.depth <= 4]
    if not cand:
        return
    n = rng.choice(cand)
    P = rp.paths(name_of(n.ixl))
    relations = hp._parent.Path.relations
    exp = []
    seen = {}

    class Over(Exception):
        pass

    def go(node, o, idx):
        if len(exp) > 120:
            raise Over
        seen[id(o), node.depth] = len(exp)
        if node.parent is None:
            exp.append((name_of(node.ixl), idx, "=", None, None))
            return
        refs = ids(e.edges(o))
        tgt = {i: x for i, x in node.parent.set.items() if i in refs}
        if not tgt:
            return
        for k, p in enumerate(hp.idset(tgt.values()).byid.parts):
            t = p.theone
            rel = [r.stra("") if r.code >= 0 else "??" for r in relations(o, t) if r.code != 0]
            at = seen.get((id(t), node.parent.depth))
            exp.append((name_of(node.ixl), idx, "@", " / ".join(rel), at))
            if at is None:
                go(node.parent, t, k)
    try:
        for k, p in enumerate(hp.idset(n.set.values()).byid.parts):
            go(n, p.theone, k)
    except Over:
        return
    got = []
    for ln in repr(P.all).split("\n"):
        m = PL.match(ln)
        if m:
            got.append(list(m.groups()))
        elif got:
            got[-1][4] += "\n" + ln     # a label with a line end in it
    for k, x in enumerate(exp):
        if k >= len(got):
            return "paths-missing", "paths of row %s: %d lines, expected %d" % (name_of(n.ixl), len(got), len(exp))
        no, nm, ix, c, rest = got[k]
        a = (int(no), nm, int(ix), c)
        b = (k, x[0], x[1], x[2])
        if a != b:
            return "paths-line", "paths of row %s: line %s, expected %s" % (name_of(n.ixl), a, b)
        if c == "@":
            t = x[3] + (" -> #%d" % x[4] if x[4] is not None else "")
            if rest.strip() != t.strip():
                return "paths-text", "paths of row %s: line %d says %r, expected %r" % (name_of(n.ixl), k, rest[:200], t[:200])
        w.event("path-line")
    if len(got) > len(exp):
        return "paths-extra", "paths of row %s: %d lines, expected %d" % (name_of(n.ixl), len(got), len(exp))


def run(w):
    e = Env(w)
    run_p02(w, e)


if __name__ == "__main__":
    vw.main(run)
