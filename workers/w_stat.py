"""Table and statistics monitors: P03 (printing), D01 (dump, load, arithmetic)."""
import functools
import gc
import io
import os
import re
import sys
import types

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vw
from vheap import Env, ids
from w_sets import Sampler

PIECES = ["%", "%s", "%d", "%(a)s", "\xe9", "\u2028", "\n", "\r\n", "\t", " ", "  ", "x" * 150, "<1 ", ">", "'", '"', "\\", "{0}", ".", ":", "-",
          "a-b", "5", "_.more", ".end:", ".r: 1 2 ", "[0]", "abc", "Q", "\x0b", "\x85", "\r", "\U0001f600", " 0 1 2"]


def nasty(rng):
    r = rng.random()
    if r < 0.4:
        return "n%d" % rng.randrange(100)
    return "".join(rng.choice(PIECES) for _ in range(rng.randrange(1, 5)))


def nows(s):
    return "".join(s.split())


class Zero(int):
    __slots__ = ()

    def __sizeof__(self):
        return 0


class Odd:
    """Nothing about it can be asked."""

    def __repr__(self):
        raise ValueError("repr")

    def __eq__(self, o):
        raise ValueError("eq")

    def __lt__(self, o):
        raise ValueError("lt")

    def __hash__(self):
        return 1

    def __len__(self):
        raise ValueError("len")

    def __getattr__(self, n):
        raise ValueError("getattr")


class OddRepr(str):
    def __repr__(self):
        return 5


def unnamed():
    m = types.ModuleType("m")
    if id(m) % 64:
        del m.__dict__["__name__"]
    else:
        m.__name__ = 5
    return m


class Bag:
    """Objects with odd names, under one root."""

    def __init__(self, rng, n):
        self.rng = rng
        self.root = []
        self.objs = []
        self.text = {}        # id -> the text that names its class
        k = rng.choice([1, 2, 5, n])
        self.classes = []
        for i in range(max(1, k)):
            d = {}
            if rng.random() < 0.5:
                d["__slots__"] = tuple("s%d" % j for j in range(rng.randrange(6)))
            nm = nasty(rng)
            try:
                c = type(nm, rng.choice([(), (), (list,), (dict,)]) if "__slots__" not in d else (), d)
            except (ValueError, TypeError):
                continue
            c.__module__ = nasty(rng)
            if rng.random() < 0.3:
                c.__qualname__ = nasty(rng)
            self.classes.append(c)
        if not self.classes:
            self.classes.append(type("C", (), {}))
        for i in range(n):
            self.add()

    def add(self):
        rng = self.rng
        r = rng.randrange(15)
        if r == 14:
            o = rng.choice([lambda: 10 ** 5000 + rng.randrange(100), unnamed, lambda: types.MethodType(functools.partial(print), 5),
                            lambda: rng.choice(self.classes)().__repr__, lambda: [].append, lambda: Odd(), lambda: OddRepr,
                            lambda: complex(1, rng.randrange(50)), lambda: nasty(rng).encode(), lambda: float("nan"),
                            lambda: (lambda: 1).__code__.replace(co_name=nasty(rng), co_filename=nasty(rng)), sys._getframe])()
        elif r < 6:
            c = rng.choice(self.classes)
            o = c()
            self.text[id(o)] = "%s.%s" % (c.__module__, c.__name__)
        elif r == 6:
            o = rng.choice(self.classes)
        elif r == 7:
            o = types.ModuleType(nasty(rng))
        elif r == 8:
            def o():
                pass
            o.__name__ = nasty(rng)
            if rng.random() < 0.5:
                o.__module__ = nasty(rng)
        elif r == 9:
            o = nasty(rng) + str(len(self.objs))
        elif r == 10:
            o = rng.randrange(10 ** rng.randrange(1, 40)) + 1000
        elif r == 11:
            o = [0] * rng.randrange(20)
        elif r == 12:
            o = dict.fromkeys(range(rng.randrange(20)))
        else:
            o = rng.random() if rng.random() < 0.5 else (0,) * rng.randrange(1, 50)
        self.objs.append(o)
        self.hold(o)

    def hold(self, o):
        rng = self.rng
        r = rng.randrange(5)
        if r == 0:
            self.root.append(o)
        elif r == 1:
            self.root.append({nasty(rng): o})
        elif r == 2:
            x = types.SimpleNamespace()
            setattr(x, nasty(rng), o)
            self.root.append(x)
        elif r == 3:
            self.root.append({rng.choice([rng.random(), (1, nasty(rng)), 10 ** 30, 10 ** 5000, (10 ** 5000,), Odd(), nasty(rng).encode()]): [o]})
        else:
            c = type("H", (), {nasty(rng): o})
            c.__module__ = "h"
            self.root.append(c)


ROW = {
    "set": re.compile(r" *(\d+) +(\d+) +(\d+) +(\d+) +(\d+) +(\d+) +(\d+)(?: |$)"),
    "id": re.compile(r" *(\d+) +(\d+) +(\d+\.\d) +(\d+) +(\d+\.\d)(?: |$)"),
    "diff": re.compile(r" *(\d+) +(-?\d+) +(-?\d+) +(-?\d+) +(\(n\.a\.\)|[-+.e0-9]+)(?: |$)"),
}
MORE = re.compile(r"<(\d+) more rows\. Type e\.g\. '_\.more' to view\.>$")


class Page:
    def __init__(self, text, kind):
        self.label, self.header, self.rows, self.more = [], [], [], None
        state = "label"
        for ln in text.split("\n"):
            m = MORE.match(ln)
            if m and state == "row":
                self.more = int(m.group(1))
                state = "end"
                continue
            if ln.startswith(" Index ") and state == "label":
                state = "header"
                self.header.append(ln)
                continue
            if state in ("header", "row") and ln[:7].strip():
                m = ROW[kind].match(ln)
                if not m:
                    raise Bad("unreadable row %r" % ln[:120])
                state = "row"
                self.rows.append([m.groups(), ln[m.end():]])
                continue
            if state == "row":
                if ln.strip() and not ln.startswith(" " * 20):
                    raise Bad("line %r inside of a table" % ln[:120])
                self.rows[-1][1] += ln
            elif state == "header":
                self.header.append(ln)
            elif state == "label":
                self.label.append(ln)
            else:
                raise Bad("text %r after the table" % ln[:100])
        self.label = "\n".join(self.label)


class Bad(Exception):
    pass


def pct(a, b):
    return int("%.0f" % (a * 100.0 / b)) if b else 0


def row_expect(kind, r, tot):
    """Columns of a row as they have to be printed."""
    idx, count, size, cum, name = r
    n, total, b = tot
    if kind == "set":
        return (str(idx), str(count), str(pct(count, n)), str(size), str(pct(size, total)), str(cum), str(pct(cum, total)))
    if kind == "id":
        return (str(idx), str(size), "%.1f" % (size * 100.0 / total if total else 0), str(cum), "%.1f" % (cum * 100.0 / total if total else 0))
    return (str(idx), str(count), str(size), str(cum), ("%9.3g" % (cum * 100.0 / b[1])).strip() if b[1] else "(n.a.)")


def label_expect(kind, tot, kindname):
    n, total, b = tot
    s = "" if n == 1 else "s"
    if kind == "set":
        return "Partition of a set of %d object%s. Total size = %d bytes." % (n, s, total)
    if kind == "id":
        return "Set of %d %s object%s. Total size = %d bytes." % (n, kindname, s, total)
    x = ("Summary of difference operation (A-B). Count Size A %d %d B %d %d A-B %d %d = %s %% of B" % (
        n + b[0], total + b[1], b[0], b[1], n, total, ("%9.3g" % (total * 100.0 / b[1])).strip() if b[1] else "(n.a.)"))
    if n or total:
        x += " Differences by kind, largest absolute size diffs first."
    return x


def check_table(w, x, kind, rows, tot, kindname, maxl, what, rng):
    """x: the printable thing; rows: what it has to show."""
    def bad(key, msg):
        w.violate("%s:%s" % (key, what), "%s of %d rows: %s" % (what, len(rows), msg))
    w.beat("print %s of %d rows, %d lines a page" % (what, len(rows), maxl))
    lazy = rng.random() < 0.3       # ask for later pages before any is printed
    pages = []
    cur = x
    shown = 0
    npages = 0
    if lazy:
        k = rng.randrange(1, 4)
        y = x
        for _ in range(k):
            y = y.more
        pages.append((k, repr(y)))
    texts = []
    while True:
        text = repr(cur)
        if rng.random() < 0.15 and repr(cur) != text:
            bad("again", "printing page %d again gives another text" % npages)
        texts.append(text)
        try:
            p = Page(text, kind)
        except Bad as e:
            bad("format", str(e))
            return
        w.event("page")
        if npages == 0:
            if nows(p.label) != nows(label_expect(kind, tot, kindname)):
                bad("label", "label %r, expected %r" % (p.label, label_expect(kind, tot, kindname)))
        elif nows(p.label):
            bad("label-again", "page %d begins with %r" % (npages, p.label[:100]))
        if p.rows and not p.header:
            bad("header", "no header over the rows of page %d" % npages)
        for cols, name in p.rows:
            if shown >= len(rows):
                bad("too-many", "page %d shows row %s" % (npages, cols[0]))
                return
            exp = row_expect(kind, rows[shown], tot)
            if cols != exp:
                bad("columns", "row %d shows %s, expected %s" % (shown, cols, exp))
            if nows(name) != nows(rows[shown][4]):
                bad("name", "row %d shows %r, its kind is %r" % (shown, name[:200], rows[shown][4][:200]))
            shown += 1
            w.event("row-shown")
        if len(p.rows) > maxl + 1:
            bad("page-size", "page %d has %d rows, the limit is %d" % (npages, len(p.rows), maxl))
        left = len(rows) - shown
        if (p.more or 0) != left:
            bad("remaining", "after page %d (%d rows shown) %s more rows are announced, there are %d" % (npages, shown, p.more, left))
        if not left:
            break
        if not p.rows:
            bad("stuck", "page %d shows no rows" % npages)
            return
        cur = cur.more
        npages += 1
        if cur.top is not x:
            bad("top", "top of page %d is another object" % npages)
        if npages > 1 and repr(cur.prev) != texts[npages - 1]:
            bad("prev", "prev of page %d prints another text" % npages)
    # beyond the end
    try:
        after = Page(repr(cur.more), kind)
        if after.rows or after.more:
            bad("after", "a page after the last shows %d rows" % len(after.rows))
    except Bad as e:
        bad("format", str(e))
    for k, t in pages:
        if k < len(texts) and t != texts[k]:
            bad("lazy", "page %d asked for at once differs" % k)
        elif k >= len(texts) and t.strip():
            bad("lazy", "page %d asked for at once is not empty" % k)
    # everything at once
    for al in (x.all, x.more.all):
        try:
            p = Page(repr(al), kind)
        except Bad as e:
            bad("format", "all: " + str(e))
            return
        got = [(c, nows(nm)) for c, nm in p.rows]
        exp = [(row_expect(kind, r, tot), nows(r[4])) for r in rows]
        if got != exp or p.more is not None:
            k = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
            bad("all", "all shows %d rows, expected %d; first difference at %d: %s" % (len(got), len(exp), k, (got[k:k + 1], exp[k:k + 1])))
        if nows(p.label) != nows(label_expect(kind, tot, kindname)):
            bad("all-label", "label of all is %r" % p.label[:200])
        w.event("all")


ERS = ["Type", "Clodo", "Size", "Id", "Unity", "Module", "Rcs", "Via", "Type&Size"]


def mkset(w, e, sm):
    """-> (objs, bag)"""
    rng = e.rng
    n = rng.choice([1, 2, 5, 9, 10, 11, 12, 13, 20, 21, 22, 23, 31, 32, 45])
    bag = Bag(rng, n)
    objs = list(bag.objs)
    if rng.random() < 0.2:
        objs += sm.draw(rng.randrange(10))
    if rng.random() < 0.05:
        objs = [Zero(k) for k in range(rng.randrange(1, 14))]
        bag.root += objs
    if rng.random() < 0.4:
        # many kinds of one object
        objs += [type("K%d" % k, (), {})() for k in range(rng.choice([3, 9, 10, 11, 12, 21]))]
        bag.root.append(objs[-25:])
    objs = list(ids(objs).values())
    if rng.random() < 0.15:
        t = type(rng.choice(objs))
        objs = [o for o in objs if type(o) is t]
    e.View.root = [bag.root]
    return objs, bag


def partrows(S):
    rows = []
    cum = 0
    p = S.partition
    for k, r in enumerate(p.get_rows()):
        cum += r.set.size
        rows.append((k, r.set.count, r.set.size, cum, r.name))
    return p, rows


def run_p03(w, e):
    hp, rng = e.hp, e.rng
    OH = hp._parent.OutputHandling
    Part = hp._parent.Part
    sm = Sampler(e)
    sm.new(20)
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        objs, bag = mkset(w, e, sm)
        OH.max_more_lines = maxl = rng.choice([10, 10, 10, 1, 2, 3, 7, 25])
        Part.line_length = rng.choice([100, 100, 60, 70, 80, 150])
        for _ in range(3):
            name = rng.choice(ERS)
            w.beat("P03 case %d by %s of %d objects" % (i, name, len(objs)))
            S = hp.idset(objs).by(name)
            p, rows = partrows(S)
            kind = "id" if name == "Id" else "set"
            tot = (len(objs), sum(hp.iso(o).size for o in objs), None)
            if tot[1] != sum(r[2] for r in rows):
                w.event("unsettled")
                continue
            w.beat("P03 case %d by %s: texts of kinds" % (i, name))
            texts(w, e, S, p)
            check_names(w, hp, S, p, rows, name, bag)
            check_table(w, S, kind, rows, tot, p.kindname, maxl, "set by %s" % name, rng)
            st = S.stat
            srows = [(a, b, c, d, oneline(f)) for a, b, c, d, f in rows]
            check_table(w, st, kind, srows, tot, oneline(p.kindname), maxl, "stat by %s" % name, rng)
            if rng.random() < 0.3:
                check_table(w, p, kind, rows, tot, p.kindname, maxl, "partition by %s" % name, rng)
            delegated(w, S, st)
            if rng.random() < 0.5 and name != "Id":
                some = [o for o in objs if rng.random() < 0.5]
                other = (hp.idset(some) if some else hp.iso()).by(name).stat
                if other.kindheader != st.kindheader:
                    continue        # the empty set is not classified
                d = st - other
                check_diff(w, d, name, maxl, rng)
            w.case((name, len(rows), len(objs), maxl, Part.line_length))
        if rng.random() < 0.6:
            print_paths(w, e, objs, bag, maxl)
        if rng.random() < 0.3:
            print_later(w, e, maxl)
        OH.max_more_lines = 10
        Part.line_length = 100
        e.View.root = e.View.heapyc.RootState
        if i % 20 == 0:
            gc.collect()


def print_later(w, e, maxl):
    """The program goes on between the pages: the owners of dictionaries that
    are shown end, attributes change."""
    hp, rng = e.hp, e.rng

    class Own:
        pass
    mk = rng.choice(["module", "instance", "mixed"])

    def make(k):
        if mk == "module" or mk == "mixed" and k % 2:
            o = types.ModuleType("later%d" % k)
        else:
            o = Own()
        o.x = k
        return o
    n = rng.choice([3, 12, 25])
    owners = [make(k) for k in range(n)]
    dicts = [o.__dict__ for o in owners]
    S = hp.idset(dicts).by(rng.choice(["Id", "Id", "Clodo", "Rcs"]))
    w.beat("P03 pages of %d dicts of %s by %s, whose owners end" % (n, mk, S.er))
    numrows = len(S)
    page = S
    seen = []
    left = None
    for turn in range(numrows + 3):
        t = str(page)
        for line in t.splitlines():
            f = line.split()
            if f and f[0].isdigit() and len(f) > 4:
                seen.append(int(f[0]))
        m = re.search(r"<(\d+) more rows", t)
        left = int(m.group(1)) if m else 0
        if left != numrows - len(seen):
            w.violate("later:remaining", "%d rows announced after %d of %d" % (left, len(seen), numrows))
            return
        if not left:
            break
        if rng.random() < .5:
            for k in range(len(owners)):
                if rng.random() < .4:
                    owners[k] = None
            if rng.random() < .7:
                gc.collect()
        page = page.more
    if seen != list(range(numrows)):
        w.violate("later:rows", "rows %r shown of %d" % (seen[:60], numrows))
    w.event("later-rows", len(seen))


def oneline(s):
    return s.replace("\n", "\\n").replace("\r", "\\r")


def delegated(w, S, st):
    if S.more.count != S.count or len(S.more) != len(S) or S.more.more.size != S.size:
        w.violate("delegate", "attributes asked of a page are not those of the set")
    if S.count and ids(S.more[0].nodes).keys() != ids(S[0].nodes).keys():
        w.violate("delegate-item", "an item of a page is not that of the set")
    if st.more.count != st.count or len(st.more) != len(st):
        w.violate("delegate-stat", "attributes asked of a page are not those of the statistics")
    w.event("delegated")


def texts(w, e, S, p):
    """Every text that can be asked for exists."""
    for x in (S.brief, S.kind.brief, str(S.kind), repr(S.kind)):
        if type(x) is not str:
            w.violate("text-type", "a text is %r" % (x,))
    m = re.match(r"<(\d+) ", S.brief)
    if S.count and (not m or int(m.group(1)) != S.count):
        w.violate("brief", "the brief of a set of %d objects is %r" % (S.count, S.brief[:100]))
    for k, r in enumerate(p.get_rows()):
        if k > 20:
            break
        b = r.set.brief
        m = re.match(r"<(\d+) ", b)
        if not m or int(m.group(1)) != r.count:
            w.violate("brief", "the brief of a set of %d objects is %r" % (r.count, b[:100]))
        if not (isinstance(str(r.kind), str) and isinstance(repr(r.kind), str)):
            w.violate("text-type", "kind")
        w.event("brief")


def check_names(w, hp, S, p, rows, name, bag):
    for k, r in enumerate(p.get_rows()):
        o = next(iter(r.set.nodes))
        exp = None
        if name in ("Type", "Clodo"):
            exp = bag.text.get(id(o))
        elif name == "Size":
            exp = str(hp.iso(o).size)
        elif name == "Id":
            t = type(o)
            if t is str or t is bytes:
                import reprlib
                exp = reprlib.repr(o)
            elif t is int or t is float:
                exp = repr(o) if t is float or abs(o) < 10 ** 4000 else None
            elif t is types.FunctionType:
                exp = "%s.%s" % (o.__module__, o.__name__)
            elif t is types.ModuleType:
                exp = getattr(o, "__name__", None)
                if type(exp) is not str:
                    exp = None
            elif t in (list, tuple):
                exp = "%s*%d" % (hex(id(o)), len(o))
            elif id(o) in bag.text:
                exp = hex(id(o))
            if exp is not None and p.kindname == "<mixed>":
                if not r.name.endswith(": " + exp):
                    w.violate("text:Id", "row %d is named %r, expected the end %r" % (k, r.name[:200], exp[:200]))
                w.event("name-known")
                continue
        if exp is not None:
            if nows(r.name) != nows(exp):
                w.violate("text:" + name, "row %d is named %r, expected %r" % (k, r.name[:200], exp[:200]))
            w.event("name-known")


def check_diff(w, d, name, maxl, rng):
    rows = []
    cum = 0
    for k, r in enumerate(d.get_rows()):
        cum += r.size
        rows.append((k, r.count, r.size, cum, r.name))
    check_table(w, d, "diff", rows, (d.count, d.size, (d.b_count, d.b_size)), "", maxl, "diff by %s" % name, rng)


def print_paths(w, e, objs, bag, maxl):
    hp, rng = e.hp, e.rng
    T = rng.choice(objs)
    extra = rng.choice([0, 1, 5, 9, 10, 11, 12, 22])
    l = [T] * extra
    if extra:
        bag.root.append(l)
    src = hp.iso(bag.root) if rng.random() < 0.7 else hp.iso(bag.root, [bag.root])
    sp = hp.iso(T).get_shpaths(src)
    n = sp.numpaths
    if n > 300:
        return
    prefix = "Src" if src.count == 1 else None
    exp = []
    for k, p in enumerate(sp):
        pre = prefix or p.src.brief
        exp.append("%d: %s" % (k, p.stra(prefix=pre)))
    if len(exp) != n:
        w.violate("paths-number", "%d paths are announced, %d enumerated" % (n, len(exp)))
    maxl = sp.maxpaths
    shown = 0
    cur = sp
    pages = 0
    while True:
        text = repr(cur)
        m = re.search(r"<\.\.\. (\d+) more paths \.\.\.>$", text)
        left = int(m.group(1)) if m else 0
        body = text[:m.start()] if m else text
        k = n - left
        if nows(body) != nows("".join(exp[shown:k])):
            w.violate("paths-text", "page %d of the paths shows %r, expected paths %d to %d: %r" % (pages, body[:300], shown, k, exp[shown:k][:3]))
            return
        if k - shown > maxl + 1 or (k == shown and n):
            w.violate("paths-page", "page %d shows %d paths, the limit is %d" % (pages, k - shown, maxl))
            return
        shown = k
        w.event("path-page")
        if not left:
            break
        cur = cur.more
        pages += 1
    t = repr(cur.more)
    if n and t != "<No more paths>" or not n and t:
        w.violate("paths-end", "after the last path: %r" % t[:100])
    if nows(repr(sp.all)) != nows("".join(exp)):
        w.violate("paths-all", "all paths: %r" % repr(sp.all)[:200])


# ---------------------------------------------------------------- D01

def stat_sig(st):
    return (st.count, st.size, st.numrows, st.kindheader, nows(str(st.kindname)), getattr(st, "b_count", None), getattr(st, "b_size", None),
            tuple((r.count, r.size, r.name, r.index, r.cumulsize) for r in st.get_rows()))


def norm(s):
    """One line of text, as it is dumped, without trailing white space."""
    return oneline(s)


def total(st):
    d = {}
    for r in st.get_rows():
        c = d.setdefault(r.name, [0, 0])
        c[0] += r.count
        c[1] += r.size
    return {k: tuple(v) for k, v in d.items() if tuple(v) != (0, 0)}


def consistent(w, st, what, exact=True):
    """Totals of a statistic agree with its rows."""
    rows = list(st.get_rows())
    if len(rows) != st.numrows or len(st) != st.numrows:
        w.violate("numrows:" + what, "%s: %d rows, numrows is %d" % (what, len(rows), st.numrows))
    cum = n = 0
    for k, r in enumerate(rows):
        cum += r.size
        n += r.count
        if r.index != k and what != "zz" or r.cumulsize != cum:
            w.violate("row-order:" + what, "%s: row %d has index %s, cumulative size %s (expected %d)" % (what, k, r.index, r.cumulsize, cum))
    if (n, cum) != (st.count, st.size):
        w.violate("totals:" + what, "%s: totals %s, the rows add up to %s" % (what, (st.count, st.size), (n, cum)))
    w.event("stat")


def readers(w, e, data, stats, path):
    """Load the same package(s) in every way."""
    hp, rng = e.hp, e.rng
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(data)
    want = [stat_sig(s) for s in stats]
    n = len(stats)

    def cmp(how, got):
        w.event("load:" + how)
        got = [stat_sig(g) for g in got]
        if got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            w.violate("load:" + how, "loaded %s: %d packages, expected %d; package %d is %s, expected %s" % (
                how, len(got), len(want), k, str(got[k:k + 1])[:700], str(want[k:k + 1])[:700]))

    def many(f, **kw):
        out = []
        while True:
            try:
                out.append(hp.load(f, **kw))
            except StopIteration:
                return out
            if len(out) > n + 3:
                return out
    how = rng.randrange(8)
    op = lambda: open(path, encoding="utf-8", newline="\n")
    if how == 0:
        with op() as f:
            cmp("file", many(f))
    elif how == 1:
        with op() as f:
            cmp("readline", many(f, use_readline=1))
    elif how == 2:
        cmp("stringio", many(io.StringIO(data)))
    elif how == 3:
        cmp("iterator", many(iter(data.split("\n")[:-1])) if n == 1 else many(io.StringIO(data), use_readline=True))
    elif how == 4:
        cmp("loadall-file", list(limit(hp.loadall(io.StringIO(data)), n + 3)))
    elif how == 5 and "\r" not in data and data.isascii():
        cmp("loadall-name", list(limit(hp.loadall(path), n + 3)))
    elif how == 6 and "\r" not in data and data.isascii():
        # a file name loads the first package, lazily and in any order
        s = hp.load(path)
        if s.numrows:
            k = rng.randrange(s.numrows)
            s.get_row(k)
        want = want[:1]
        cmp("name", [s])
    else:
        lines = [x + "\n" for x in data.split("\n")[:-1]]
        end = [i for i, x in enumerate(lines) if x.startswith(".end:")]
        one = lines[:end[0] + 1]
        want = want[:1]
        # A list of lines, also without the line ends
        if rng.random() < 0.5:
            one = [x.rstrip("\n") for x in one]
        if rng.random() < 0.3:
            one = one[:-1]      # no end mark: the end of the data ends it
        cmp("list", [hp.load(one)])


def limit(it, n):
    for x in it:
        yield x
        n -= 1
        if not n:
            return


def dumped(w, e, stats, path):
    """Dump the summaries one after the other into one stream, in some way."""
    rng = e.rng
    r = rng.randrange(3)
    if r == 0:
        f = io.StringIO()
        for s in stats:
            s.dump(f)
        w.event("dump:stream")
        return f.getvalue()
    if r == 1:
        if os.path.exists(path):
            os.unlink(path)
        if rng.random() < 0.3:
            with open(path, "w") as f:
                f.write("garbage that is overwritten\n")
            stats[0].dump(path, mode="w")
        else:
            stats[0].dump(path)
        for s in stats[1:]:
            s.dump(path)
        w.event("dump:name")
    else:
        with open(path, "w", encoding="utf-8") as f:
            for s in stats:
                s.dump(f)
            if f.closed:
                w.violate("closed", "dump closed the file it was given")
        w.event("dump:file")
    with open(path, encoding="utf-8", newline="") as f:
        return f.read()


def run_d01(w, e):
    hp, rng = e.hp, e.rng
    sm = Sampler(e)
    sm.new(20)
    os.makedirs(w.scratch, exist_ok=True)
    path = os.path.join(w.scratch, "d01.dump")
    names = [n for n in ERS]
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        objs, bag = mkset(w, e, sm)
        pool = []
        name = rng.choice(names)
        w.beat("D01 case %d by %s of %d objects" % (i, name, len(objs)))
        for _ in range(rng.choice([1, 2, 3, 4])):
            k = rng.random()
            sub = [o for o in objs if rng.random() < rng.choice([0, 0.3, 0.7, 1])]
            S = (hp.idset(sub) if sub else hp.iso()).by(name)
            p, rows = partrows(S)
            st = S.stat if rng.random() < 0.7 else p.get_stat()
            sizes = sum(hp.iso(o).size for o in sub)
            if sizes != sum(r[2] for r in rows):
                w.event("unsettled")
                continue
            got = [(r.index, r.count, r.size, r.cumulsize, r.name) for r in st.get_rows()]
            # A name is kept as the one line that is dumped
            exp = [(a, b, c, d, norm(f)) for a, b, c, d, f in rows]
            if got != exp:
                j = next((q for q, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
                w.violate("stat-rows:" + name, "statistics have %d rows, the set %d; row %d is %s, expected %s" % (
                    len(got), len(exp), j, str(got[j:j + 1])[:500], str(exp[j:j + 1])[:500]))
            if (st.count, st.size) != (len(sub), sizes):
                w.violate("stat-totals:" + name, "statistics have totals %s, the set %s" % ((st.count, st.size), (len(sub), sizes)))
            consistent(w, st, "stat")
            pool.append(st)
        if not pool:
            continue
        for step in range(rng.randrange(1, 7)):
            r = rng.randrange(4)
            a, b = rng.choice(pool), rng.choice(pool)
            sa, sb = stat_sig(a), stat_sig(b)
            if r == 0:
                if a.kindheader != b.kindheader:    # the empty set is not classified
                    try:
                        a - b
                        w.violate("subtract-header", "summaries by different relations are subtracted")
                    except ValueError:
                        pass
                    continue
                d = a - b
                ta, tb = total(a), total(b)
                exp = {}
                for k in ta.keys() | tb.keys():
                    v = ta.get(k, (0, 0)), tb.get(k, (0, 0))
                    v = (v[0][0] - v[1][0], v[0][1] - v[1][1])
                    if v != (0, 0):
                        exp[k] = v
                if total(d) != exp:
                    w.violate("subtract", "difference is %s, expected %s" % (str(total(d))[:600], str(exp)[:600]))
                consistent(w, d, "difference")
                if (d.b_count, d.b_size) != (b.count, b.size):
                    w.violate("subtract-b", "difference has b totals %s, expected %s" % ((d.b_count, d.b_size), (b.count, b.size)))
                sizes = [abs(r.size) for r in d.get_rows()]
                if sizes != sorted(sizes, reverse=True):
                    w.violate("subtract-order", "rows of a difference are not sorted by size")
                if len(set(r.name for r in d.get_rows())) != d.numrows and len(total(d)) == d.numrows:
                    w.violate("subtract-dup", "a difference has two rows of one kind")
                pool.append(d)
                w.event("subtract")
            elif r == 1 and a.numrows:
                n = a.numrows
                if rng.random() < 0.4:
                    k = rng.randrange(-n, n)
                    s = a[k]
                    ks = [k % n]
                else:
                    sl = slice(rng.choice([None, rng.randrange(-n - 1, n + 2)]), rng.choice([None, rng.randrange(-n - 1, n + 2)]),
                               rng.choice([None, 1, 2, -1]))
                    s = a[sl]
                    ks = list(range(n))[sl]
                rows = list(a.get_rows())
                exp = [(rows[k].count, rows[k].size, rows[k].name) for k in ks]
                got = [(r.count, r.size, r.name) for r in s.get_rows()]
                if got != exp:
                    w.violate("slice", "slice of a statistic has rows %s, expected %s" % (str(got)[:500], str(exp)[:500]))
                consistent(w, s, "slice")
                pool.append(s)
                w.event("slice")
                for bad in (n, -n - 1):
                    try:
                        a[bad]
                        w.violate("index", "stat[%d] of %d rows is accepted" % (bad, n))
                    except IndexError:
                        pass
            elif r == 2:
                check_queries(w, rng, a)
            else:
                some = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
                w.beat("D01 dump and load %d packages by %s" % (len(some), name))
                data = dumped(w, e, some, path)
                if not data.isprintable() and any(c in data for c in "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"):
                    w.event("odd-separator")
                readers(w, e, data, some, path)
                back = list(hp.loadall(io.StringIO(data)))
                pool.extend(back[:1])
                for x, y in zip(some, back):
                    if repr(x) != repr(y):
                        w.violate("repr", "a loaded summary prints %r, the original %r" % (repr(y)[:500], repr(x)[:500]))
                    d = x - y if x.kindheader == y.kindheader else None
                    if d is None or d.numrows or d.count or d.size:
                        w.violate("self-difference", "a summary minus itself loaded again is not empty")
            if stat_sig(a) != sa or stat_sig(b) != sb:
                w.violate("operand", "an operation altered a summary")
            w.case((name, r, min(a.numrows, 30), min(b.numrows, 30)))
        for bad in (5, None):
            try:
                pool[0] - bad
                w.violate("subtract-type", "summary - %r is accepted" % (bad,))
            except TypeError:
                pass
        if rng.random() < 0.2:
            other = hp.idset(objs).by("Size" if name != "Size" else "Type").stat
            try:
                pool[0] - other
                w.violate("subtract-header", "summaries by different relations are subtracted")
            except ValueError:
                pass
        malformed(w, e, rng, pool[0], path)
        e.View.root = e.View.heapyc.RootState
        if i % 20 == 0:
            gc.collect()
    if os.path.exists(path):
        os.unlink(path)


def check_queries(w, rng, a):
    rows = list(a.get_rows())
    names = list(dict.fromkeys(r.name for r in rows))
    # rows of kinds
    want = [rng.choice(names) for _ in range(rng.randrange(0, 5))] if names else []
    want = list(dict.fromkeys(want))
    if rng.random() < 0.5:
        want.insert(rng.randrange(len(want) + 1), "no such kind")
    got = a.get_rows_of_kinds(want)
    if len(names) == len(rows):
        exp = [next((r for r in rows if r.name == n), None) for n in want]
        if [g and (g.count, g.size, g.name) for g in got] != [x and (x.count, x.size, x.name) for x in exp]:
            w.violate("rows-of-kinds", "rows of kinds %s: %s" % (str(want)[:200], [g and g.name for g in got]))
    # N rows and the others
    if hasattr(a, "b_count") or any(r.size < 0 or r.count < 0 for r in rows) or [r.size for r in rows] != sorted([r.size for r in rows], reverse=True):
        return
    n = rng.randrange(0, len(rows) + 3)
    by = rng.choice(["Size", "Count"])
    got = a.get_rows_n_and_other(n, by)
    key = (lambda r: r.size) if by == "Size" else (lambda r: r.count)
    if sum(r.count for r in got) != a.count or sum(r.size for r in got) != a.size:
        w.violate("n-and-other", "%d rows and others add up to %s, expected %s" % (n, (sum(r.count for r in got), sum(r.size for r in got)), (a.count, a.size)))
    ks = [key(r) for r in got]
    if ks != sorted(ks, reverse=True):
        w.violate("n-and-other-order", "rows and others are not sorted by %s" % by)
    exp = sorted([key(r) for r in rows], reverse=True)[:n]
    own = [r for r in got if r.name != "<Other>"] if "<Other>" not in names else None
    if own is not None:
        if [key(r) for r in own] != exp or (len(got) - len(own)) != (1 if len(rows) > n else 0):
            w.violate("n-and-other-rows", "the first %d rows by %s are %s, expected %s" % (n, by, [key(r) for r in own], exp))
    got.clear()
    w.event("query")


def malformed(w, e, rng, st, path):
    hp = e.hp
    f = io.StringIO()
    st.dump(f)
    data = f.getvalue()
    k = rng.randrange(4)
    if k == 0:
        exc, arg = ValueError, ["no loader\n", "x\n"]
    elif k == 1:
        exc, arg = ValueError, iter([".loader: no_such_loader\n", ".end: .loader: no_such_loader\n"])
    elif k == 2:
        exc, arg = TypeError, 5
    else:
        exc, arg = StopIteration, io.StringIO("")
    try:
        hp.load(arg)
        w.violate("malformed:%d" % k, "malformed data is loaded")
    except exc:
        w.event("malformed")
    # an unfinished package still loads the rows that are complete
    lines = data.split("\n")[:-1]
    if st.numrows > 1:
        cut = lines.index(next(x for x in lines if x.startswith(".r:"))) + rng.randrange(1, st.numrows + 1)
        part = hp.load(iter([x + "\n" for x in lines[:cut]]))
        rows = list(part.get_rows())
        exp = list(st.get_rows())[:len(rows)]
        if [(r.count, r.size, r.name) for r in rows] != [(r.count, r.size, r.name) for r in exp]:
            w.violate("unfinished", "rows of an unfinished package differ")


def run(w):
    e = Env(w)
    {"P03": run_p03, "D01": run_d01}[w.args["mode"]](w, e)


if __name__ == "__main__":
    vw.main(run)
