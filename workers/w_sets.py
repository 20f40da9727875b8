"""Object set monitors: Z01 C01 C02 C03 C04 P01 over random object graphs."""
import gc
import os
import sys
import tracemalloc
import types

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vw
from vheap import Env, tyname, ids, compare
from vgraph import closure, describe, Leaf, FrameType


def sz(o):
    return sys.getsizeof(o)


def own_type(o):
    return type(o).__module__.startswith("guppy.")


class Sampler:
    """Picks objects for sets: from a graph, and unusual ones."""

    def __init__(self, e):
        self.e = e
        self.odd = [None, True, 0, 1, 1.0, "", b"", (), frozenset(), NotImplemented, Ellipsis, int, type, object, sys, gc,
                    len, [].append, "x" * 1000, 10 ** 50, Leaf, types.FunctionType, {}, [], set(), lambda: 1, type("NoDoc", (), {}),
                    complex(1, 2), range(5), slice(1), memoryview(b"x"), Ellipsis.__class__, property(), staticmethod(len),
                    types.SimpleNamespace(a=1), types.ModuleType("odd_module"), classmethod(len), (1, 2), [1, 2], {1: 2}]

    def new(self, n=None):
        e = self.e
        self.g = e.graph(n)
        e.setroot(self.g)
        return self.g

    def draw(self, k):
        rng = self.e.rng
        out = []
        for _ in range(k):
            r = rng.random()
            if r < 0.8:
                out.append(rng.choice(self.g.objs))
            elif r < 0.9:
                o = rng.choice(self.g.objs)
                d = getattr(o, "__dict__", None)
                out.append(d if type(d) is dict else o)
            else:
                out.append(rng.choice(self.odd))
        return list({id(x): x for x in out}.values())

    def drawset(self, objs):
        """A set of the given objects, built in one of several ways."""
        e = self.e
        hp, rng = e.hp, e.rng
        r = rng.randrange(5)
        if r == 0:
            return hp.iso(*objs)
        if r == 1:
            return hp.idset(objs)
        if r == 2:
            S = hp.iso()
            for o in objs:
                S |= hp.iso(o)
            return S
        if r == 3:
            k = rng.randrange(len(objs) + 1)
            return hp.iso(*objs[:k]) | hp.idset(objs[k:])
        x = object()
        return hp.iso(*(objs + [x])) - hp.iso(x)


def same(S, objs):
    return {id(x) for x in S.nodes} == {id(x) for x in objs}


# ---------------------------------------------------------------- Z01

class Sized:
    def __init__(self, n):
        self.n = n

    def __sizeof__(self):
        return self.n


class SizedList(list):
    def __sizeof__(self):
        return 1000


# Types of the extensions that hold no more memory than the interpreter knows
EXACT = ("ImmNodeSet", "ImmBitSet", "CplBitSet", "NodeTuple", "Relation", "Horizon", "ObjectClassifier", "RootStateType")


def owned(w, e):
    """Containers of the extensions, against the memory that is freed with them."""
    from guppy.sets import mutbitset, mutnodeset, immnodeset
    from guppy.heapy.heapyc import NodeGraph
    hp, rng = e.hp, e.rng
    objs = [object() for k in range(rng.choice([5, 60, 700]))]
    spread = 1 << rng.choice([rng.randrange(3, 20), 20])

    def bits():
        m = mutbitset([])
        for k in range(rng.choice([0, 1, 5, 50, 400, 6000])):
            n = rng.randrange(spread) * rng.choice([1, 1, -1])
            rng.choice([m.add, m.add, m.add, m.discard])(n)
        return m

    def nodes():
        m = mutnodeset([])
        for k in range(rng.choice([0, 1, 5, 50, 400])):
            rng.choice([m.add, m.add, m.add, m.discard])(rng.choice(objs))
        return m

    def graph():
        g = NodeGraph()
        for k in range(rng.choice([0, 1, 5, 50, 400])):
            g.add_edge(rng.choice(objs), rng.choice(objs))
        if rng.random() < .5:
            g[objs[0]]
        return g

    def imm():
        return immnodeset(rng.sample(objs, rng.randrange(1, len(objs))))

    def drop(cell):
        a = gm()
        cell[0] = None
        b = gm()
        return a[0] - b[0]
    gm = tracemalloc.get_traced_memory
    gc.disable()
    tracemalloc.start()
    try:
        for f in [bits, nodes, graph, imm] * 2:
            cell, none = [f()], [None]
            size = hp.iso(cell[0]).size
            # (the interpreter allocates one more item than there are for those made by calling the type)
            more = {"graph": 0, "imm": 8, "bits": 16 * cell[0]._num_seg if f is bits else 0, "nodes": size // 8}[f.__name__]
            drop(none)
            # (the answers have a size too)
            zero = drop(none)
            freed = drop(cell) - zero
            if zero != drop(none):
                continue
            if not size <= freed <= size + more:
                w.violate("size-owned:" + f.__name__, "the size of a container of the extensions (%s) is %d; %d bytes are freed with it" % (f.__name__, size, freed))
            w.event("owned-size")
            if f is bits and cell[0] is None and more > 32:
                w.event("segments")
    finally:
        tracemalloc.stop()
        gc.enable()


def run_z01(w, e):
    hp, rng = e.hp, e.rng
    sm = Sampler(e)
    i = 0
    ers = ["type", "clodo", "size", "id", "unity", "module", "rcs", "idset"]
    while w.more(i, w.args["n"]):
        i += 1
        g = sm.new()
        g.objs += [Sized(rng.randrange(10 ** rng.randrange(1, 8))), SizedList([1])]
        big = rng.random()
        if big < 0.3:
            # containers that have grown and shrunk
            l = list(range(rng.randrange(500)))
            del l[rng.randrange(len(l) + 1):]
            d = dict.fromkeys(range(rng.randrange(500)))
            for k in range(0, len(d), 2):
                del d[k]
            s = set(range(rng.randrange(300)))
            g.objs += [l, d, s, bytearray(rng.randrange(1000)), "é" * rng.randrange(50), "\U00010000" * rng.randrange(9), 2 ** rng.randrange(5000)]
        w.beat("Z01 case %d kinds=%s" % (i, g.kinds))
        if i % 8 == 1:
            owned(w, e)
        for o in g.objs:
            a = hp.iso(o).size
            if own_type(o) and type(o).__name__ not in EXACT:
                if a < sz(o):
                    w.violate("size:" + tyname(o), "size of a %s is %d, the interpreter accounts %d" % (type(o).__name__, a, sz(o)))
                continue
            b = sz(o)
            if a != b:
                w.violate("size:" + tyname(o), "size of a %s is %d; the interpreter accounts %d" % (type(o).__name__, a, b))
            w.event("object-size")
        for _ in range(6):
            objs = sm.draw(rng.randrange(0, 25))
            tot = sum(hp.iso(o).size for o in objs)
            S = sm.drawset(objs)
            if S.size != tot or S.indisize != tot or S.count != len(objs) or e.View.indisize(S) != tot:
                w.violate("sum", "size %d indisize %d count %d of a set; expected %d and %d" % (S.size, S.indisize, S.count, tot, len(objs)))
            if not objs:
                continue
            for er in rng.sample(ers, 3):
                T = getattr(S, "by" + er)
                p = T.partition
                rows = list(p.get_rows())
                if p.size != tot or p.count != len(objs):
                    w.violate("partition-size:" + er, "partition by %s has count %d size %d; expected %d %d" % (er, p.count, p.size, len(objs), tot))
                cum = 0
                for r in rows:
                    n = sum(hp.iso(o).size for o in r.set.nodes)
                    cum += n
                    if r.size != n or r.cumulsize != cum or r.count != r.set.count:
                        w.violate("row-size:" + er, "row %d of a partition by %s has size %d cumulative %d count %d; expected %d %d %d" % (
                            r.index, er, r.size, r.cumulsize, r.count, n, cum, r.set.count))
                    w.event("row-size")
                if sum(T[k].size for k in range(len(T))) != tot or T[0:].size != tot:
                    w.violate("rows-total:" + er, "sizes of the rows do not add up")
                if T.stat.size != tot or T.stat.count != len(objs):
                    w.violate("stat-size:" + er, "statistics have other totals")
            other = sm.draw(rng.randrange(0, 8))
            U = S | hp.idset(other)
            exp = sum(hp.iso(o).size for o in ids(objs + other).values())
            if U.size != exp or (S - hp.idset(other)).size + (S & hp.idset(other)).size != tot:
                w.violate("union-size", "sizes of union, difference and intersection do not fit")
            w.event("set-size")
            w.case((len(objs), tuple(sorted({tyname(x) for x in objs}))))
        e.done()


# ---------------------------------------------------------------- C04

def run_c04(w, e):
    hp, rng = e.hp, e.rng
    sm = Sampler(e)
    Nothing = hp.Nothing
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        g = sm.new(rng.choice([2, 4, 8, 20]))
        pool = sm.draw(rng.choice([2, 3, 5, 12, 30]))
        # equal but distinct objects
        pool += [1000 + rng.randrange(2) for _ in range(3)] + [Leaf("a"), ("t", 1), tuple(["t", 1])] + ["s%d" % rng.randrange(2)]
        pool = list(ids(pool).values())
        w.beat("C04 case %d pool %s" % (i, [tyname(x) for x in pool]))
        vals = []
        for _ in range(3):
            m = [x for x in pool if rng.random() < rng.choice([0, 0.1, 0.3, 0.7, 1])]
            vals.append((sm.drawset(m), ids(m)))
        vals.append((Nothing, {}))
        x = rng.choice(pool)
        vals.append((hp.iso(x), {id(x): x}))
        for step in range(30):
            (A, a), (B, b) = rng.choice(vals), rng.choice(vals)
            foreign = rng.random()
            op = rng.choice(["|", "&", "-", "^", "|=", "&=", "-=", "^="])
            rhs = B
            if foreign < 0.2:
                rhs = B.nodes
            r = apply(A, rhs, op)
            m = {"|": {**a, **b}, "&": {k: v for k, v in a.items() if k in b}, "-": {k: v for k, v in a.items() if k not in b},
                 "^": {**{k: v for k, v in a.items() if k not in b}, **{k: v for k, v in b.items() if k not in a}}}[op[0]]
            got = ids(r.nodes)
            sig = (op, min(len(a), 6), min(len(b), 6), foreign < 0.2, A is B, min(len(a.keys() & b.keys()), 4), len(vals))
            if got.keys() != m.keys():
                w.violate("op:%s" % op, "%s of sets of %d and %d objects has %d objects, expected %d" % (op, len(a), len(b), len(got), len(m)))
            for S, s in ((A, a), (B, b)):
                if ids(S.nodes).keys() != s.keys():
                    w.violate("op-alters:%s" % op, "%s altered an operand" % op)
            w.event("op")
            check_obs(w, e, r, m, pool)
            ak, bk = a.keys(), b.keys()
            for name, val, exp in (("==", A == rhs, ak == bk), ("!=", A != rhs, ak != bk), ("<=", A <= rhs, ak <= bk), ("<", A < rhs, ak < bk),
                                   (">=", A >= rhs, ak >= bk), (">", A > rhs, ak > bk), ("disjoint", A.disjoint(B), not (ak & bk))):
                if bool(val) != exp:
                    w.violate("cmp:" + name, "%s of sets of %d and %d objects is %r, expected %r" % (name, len(a), len(b), val, exp))
                w.event("cmp")
            if ak == bk and hash(A) != hash(B):
                w.violate("hash", "equal sets have different hashes")
            w.case(sig)
            if len(vals) < 12 or rng.random() < 0.3:
                vals.append((r, m))
            if len(vals) > 14:
                vals.pop(rng.randrange(len(vals)))
        for S, s in vals[:6]:
            mapped(w, e, S, s, pool)
        # rows
        S, s = max(vals, key=lambda v: len(v[1]))
        if s:
            T = S.by(rng.choice(["Type", "Clodo", "Size", "Id", "Unity"]))
            rows = [ids(r.set.nodes) for r in T.partition.get_rows()]
            n = len(rows)
            if len(T) != n:
                w.violate("len", "len is %d, the partition has %d rows" % (len(T), n))
            for k in list(range(min(n, 6))) + [-1, -n]:
                if ids(T[k].nodes).keys() != rows[k].keys():
                    w.violate("index", "set[%d] is not row %d" % (k, k))
            for k in (n, n + 5, -n - 1):
                try:
                    T[k]
                    w.violate("index-range", "set[%d] of %d rows is accepted" % (k, n))
                except IndexError:
                    pass
            for _ in range(5):
                sl = slice(rng.choice([None, rng.randrange(-n - 2, n + 3)]), rng.choice([None, rng.randrange(-n - 2, n + 3)]),
                           rng.choice([None, None, 1, 2, 3]))
                exp = {}
                for r in rows[sl]:
                    exp.update(r)
                got = T[sl]
                if ids(got.nodes).keys() != exp.keys():
                    w.violate("slice", "set[%s] has %d objects, its rows have %d" % (sl, got.count, len(exp)))
                w.event("slice")
            parts = T.parts
            if len(parts) != n or any(ids(p.nodes).keys() != r.keys() for p, r in zip(parts, rows)):
                w.violate("parts", "parts are not the rows")
        e.done()


def mapped(w, e, S, s, pool):
    """Attributes and items, looked up in all the members."""
    rng = e.rng
    names = ["__class__", "__dict__", "__doc__", "a", "__name__", "__self__", "absent", "next"]
    for o in pool:
        d = getattr(o, "__dict__", None)
        if type(d) is dict:
            names += [k for k in d if type(k) is str and k.isidentifier() and k != "_set_"][:3]
    name = rng.choice(names)
    want = {}
    for o in s.values():
        try:
            v = getattr(o, name)
            u = getattr(o, name)
        except AttributeError:
            continue
        if v is not u:
            return
        want[id(v)] = v
    got = ids(getattr(S.maprox, name).nodes)
    if got.keys() != want.keys():
        w.violate("maprox:attr", "attribute %s over a set of %d gives %d objects, expected %d" % (name, len(s), len(got), len(want)))
    w.event("mapped")
    subs = [o for o in s.values() if type(o) in (list, tuple, dict)]
    if subs:
        T = e.hp.iso(*subs)
        keys = [0, 1, -1, 2]
        if all(type(o) is dict for o in subs):
            keys += ["a", "absent", None] + [k for o in subs for k in list(o)[:2]]
        k = rng.choice(keys)
        want = {}
        for o in subs:
            try:
                v = o[k]
            except (IndexError, KeyError):
                continue
            want[id(v)] = v
        got = ids(T.maprox[k].nodes)
        if got.keys() != want.keys():
            w.violate("maprox:item", "item %r over a set of %d gives %d objects, expected %d" % (k, len(subs), len(got), len(want)))
        w.event("mapped")


def apply(A, B, op):
    if op == "|":
        return A | B
    if op == "&":
        return A & B
    if op == "-":
        return A - B
    if op == "^":
        return A ^ B
    if op == "|=":
        A |= B
    elif op == "&=":
        A &= B
    elif op == "-=":
        A -= B
    else:
        A ^= B
    return A


def check_obs(w, e, r, m, pool):
    hp = e.hp
    if r.count != len(m):
        w.violate("count", "count is %d of %d" % (r.count, len(m)))
    if bool(r) != bool(m):
        w.violate("bool", "truth value of a set of %d" % len(m))
    if not m and r is not hp.Nothing:
        w.violate("nothing", "an empty result is not Nothing")
    for o in pool[:8]:
        if (o in r) != (id(o) in m):
            w.violate("in", "membership of %s is %r" % (describe(o), o in r))
    if len(m) == 1:
        if r.theone is not list(m.values())[0]:
            w.violate("theone", "theone is another object")
    else:
        try:
            r.theone
            w.violate("theone", "theone of a set of %d is accepted" % len(m))
        except (ValueError, AttributeError):
            pass
    w.event("observe")


# ---------------------------------------------------------------- C01

def owners_of(objs):
    """(sure, maybe): dict id -> owners, by attribute access.  The owners that are
    sure are those that the collector lists; frozen objects and static types may
    or may not be taken for owners."""
    sure, maybe = {}, {}
    listed = gc.get_objects()
    for out, cands in ((sure, listed), (maybe, objs + list(sys.modules.values()) + Frozen)):
        have = ids(listed) if out is maybe else ()
        for o in cands:
            if id(o) in have:
                continue
            t = type(o)
            try:
                if isinstance(o, type):
                    ds = [x for x in gc.get_referents(o) if type(x) is dict]
                    ds += gc.get_referents(type.__dict__["__dict__"].__get__(o))
                    if not o.__flags__ & 1 << 9:
                        for d in ds:
                            maybe.setdefault(id(d), []).append(o)
                        continue
                elif t.__dictoffset__ or t.__flags__ & 16:
                    ds = [object.__getattribute__(o, "__dict__")]
                else:
                    continue
            except AttributeError:
                continue
            for d in ds:
                if type(d) is dict:
                    out.setdefault(id(d), []).append(o)
    return sure, maybe


Frozen = []


def run_c01(w, e):
    hp, rng = e.hp, e.rng
    sm = Sampler(e)
    prod = w.args.get("prod")
    if prod:
        tracemalloc.start(rng.choice([1, 3]))
    base = {"Type": lambda o: hp.Type(type(o)), "Size": lambda o: hp.Size(hp.iso(o).size), "Id": lambda o: hp.Id(id(o)),
            "Unity": lambda o: hp.Anything, "Idset": None,
            "Module": lambda o: hp.Module(at=id(o)) if type(o) is types.ModuleType else hp.Module()}
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        g = sm.new()
        made = prod_objs(rng) if prod else []
        g.objs += [x for x, _ in made]
        w.beat("C01 case %d kinds=%s" % (i, g.kinds))
        gc.collect()
        allobj = list(closure([g.root], e.edges).values())
        objs0 = sm.draw(60) + [o for o in allobj if type(o) is dict][:20]
        objs0 = list(ids(objs0).values())
        sure, maybe = owners_of(objs0 + allobj + sm.odd)

        def otypes(o):
            return {type(x) for x in sure.get(id(o), []) + maybe.get(id(o), [])}
        inside = ids(allobj)

        def clodo(o):
            """the set of acceptable kinds"""
            if type(o) is not dict:
                return [hp.Clodo(type(o))]
            return ([] if id(o) in sure else [hp.Clodo(dictof=())]) + [hp.Clodo(dictof=t) for t in otypes(o)]

        def tdict(o):
            if type(o) is not dict:
                return [hp.Type.dictof(None)]
            return ([] if id(o) in sure else [hp.Type.dictof(hp.Nothing)]) + [hp.Type(t).dictof for t in otypes(o)]

        def expected(er, o):
            if er == "Clodo":
                return clodo(o)
            if er == "Type.dictof":
                return tdict(o)
            if er == "Prod":
                t = tracemalloc.get_object_traceback(o)
                if t is None:
                    return [hp.Prod()]
                f = t[-1]
                return [hp.Prod(f.filename, f.lineno)]
            return [base[er](o)]

        def geter(er):
            return hp.Type.dictof if er == "Type.dictof" else getattr(hp, er)
        names = ["Type", "Size", "Id", "Unity", "Module", "Clodo", "Type.dictof"] + (["Prod", "Prod", "Prod"] if prod else [])
        for _ in range(7):
            objs = rng.sample(objs0, rng.randrange(1, len(objs0) + 1))
            if made and rng.random() < 0.7:
                objs += [x for x, _ in made]
                objs = list(ids(objs).values())
            k = rng.choice([1, 1, 1, 2, 2, 3])
            ers = rng.sample(names, min(k, len(names)))
            ers = list(dict.fromkeys(ers))
            er = geter(ers[0])
            for x in ers[1:]:
                er = er & geter(x)
            if "Id" in ers or "Module" in ers:
                # these kinds are made from an address, which is looked up in the heap
                objs = [o for o in objs if id(o) in inside]
                if not objs:
                    continue
            S = hp.idset(objs).by(er)
            # group by the analyser
            where = {}
            en = "&".join(ers)
            parts = er.classifier.partition(S.nodes)
            for j, (kind, part) in enumerate(parts):
                for o in part.nodes:
                    if id(o) in where:
                        w.violate("twice:" + en, "an object is in two classes")
                    where[id(o)] = j
            if where.keys() != {id(o) for o in objs}:
                w.violate("lost:" + en, "%d of %d objects classified" % (len(where), len(objs)))
                continue
            single = {}
            for x in ers:
                m = single[x] = {}
                sp = geter(x).classifier.partition(S.nodes)
                for j, (kind, part) in enumerate(sp):
                    for o in part.nodes:
                        m[id(o)] = j, kind
            for o in objs:
                for x in ers:
                    kind = single[x][id(o)][1]
                    cands = expected(x, o)
                    w.event("classified")
                    if not any(kind == c for c in cands):
                        w.violate("class:%s:%s" % (x, tyname(o)), "%s is classified by %s as %s, expected %s" % (
                            describe(o), x, kind, " or ".join(map(str, cands))))
            if len(ers) > 1:
                groups = {}
                for o in objs:
                    groups.setdefault(tuple([single[x][id(o)][0] for x in ers]), set()).add(id(o))
                got = [{id(o) for o in part.nodes} for kind, part in parts]
                if sorted(map(sorted, got)) != sorted(map(sorted, groups.values())):
                    w.violate("and:" + en, "%d classes by the combination, the separate classifications give %d" % (len(got), len(groups)))
                w.event("combined")
            for kind, part in rng.sample(parts, min(len(parts), 4)):
                sel = hp.idset(objs) & kind
                if ids(sel.nodes).keys() != ids(part.nodes).keys():
                    w.violate("select:" + en, "the class %s has %d objects, selecting by it gives %d" % (kind, part.count, sel.count))
                o = next(iter(part.nodes))
                k2 = er[hp.iso(o)]
                if not (k2 == kind):
                    w.violate("alone:" + en, "%s is %s alone, %s in a larger set" % (describe(o), k2, kind))
                w.event("alone")
            # the kind of the set is the union
            w.case((tuple(ers), len(objs) // 5, tuple(sorted({tyname(o) for o in objs}))[:4]))
        # ownership changes are seen after a collection
        if rng.random() < 0.5:
            o = g.cls.Plain()
            d = {"k": 1}
            g.objs[0:0] = [o]
            k1 = hp.Clodo[hp.iso(d)]
            if not k1 == hp.Clodo(dictof=()):
                w.violate("owner", "a dict without an owner is %s" % k1)
            o.__dict__ = d
            gc.collect()
            k2 = hp.Clodo[hp.iso(d)]
            if not k2 == hp.Clodo(dictof=g.cls.Plain):
                w.violate("owner", "a dict that was given an owner is %s" % k2)
            o.__dict__ = {}
            gc.collect()
            k3 = hp.Clodo[hp.iso(d)]
            if not k3 == hp.Clodo(dictof=()):
                w.violate("owner", "a dict whose owner has another dict is %s" % k3)
            if not hp.iso(o.__dict__).owners.theone is o:
                w.violate("owners", "owners of a dict is not its owner")
            w.event("owner-change")
        e.done()


def prod_objs(rng):
    out = []
    for j in range(rng.randrange(1, 6)):
        fn = "file%d.py" % rng.randrange(3)
        ln = rng.randrange(1, 300)
        src = "\n" * (ln - 1) + "def f(): return [object()]"
        ns = {}
        exec(compile(src, fn, "exec"), ns)
        o = ns["f"]()
        out.append((o, (fn, ln)))
    return out


# ---------------------------------------------------------------- C02

def run_c02(w, e):
    hp, rng = e.hp, e.rng
    sm = Sampler(e)
    Path = hp._parent.Path
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        g = sm.new()
        w.beat("C02 case %d kinds=%s" % (i, g.kinds))
        gc.collect()
        cl = {}
        rev = {}

        def recompute():
            gc.collect()
            cl.clear()
            cl.update(closure([g.root], e.edges))
            rev.clear()
            for o in cl.values():
                for t in ids(e.edges(o)):
                    rev.setdefault(t, {})[id(o)] = o
        recompute()
        allo = list(cl.values())
        inside = cl
        for _ in range(5):
            objs = [rng.choice(g.objs if rng.random() < 0.6 else allo) for _ in range(rng.randrange(1, 25))]
            if rng.random() < 0.1:
                objs.append(Leaf("outside"))
            objs = list(ids(objs).values())
            mode = rng.choice(["rcs", "rcs", "type.refdby", "id.refdby", "via", "via", "findex", "idset", "rcs&type"])

            def chk():
                if mode in ("rcs", "type.refdby", "id.refdby", "rcs&type"):
                    sub = {"rcs": hp.Clodo, "rcs&type": hp.Clodo, "type.refdby": hp.Type, "id.refdby": hp.Id}[mode]
                    er = hp.Rcs if mode == "rcs" else sub.refdby
                    if mode == "rcs&type":
                        er = hp.Rcs & hp.Type
                    parts = er.classifier.partition(hp.idset(objs).nodes)
                    seen = set()
                    for kind, part in parts:
                        for o in part.nodes:
                            seen.add(id(o))
                            refs = rev.get(id(o), {})
                            exp = []
                            for r in refs.values():
                                k = sub[hp.iso(r)]
                                if not any(k == x for x in exp):
                                    exp.append(k)
                            w.event("rcs-object")
                            ek = (hp.Rcs if mode == "rcs&type" else er)(*exp) if exp else hp.sonokind.refdby
                            if mode == "rcs&type":
                                ek = ek & hp.Type(type(o))
                            if not kind == ek:
                                return (mode + ":" + tyname(o), "%s is classified as %s; its %d referrers give %s (%s)" % (
                                    describe(o), kind, len(refs), ek, ", ".join(map(describe, list(refs.values())[:5]))))
                    if seen != {id(o) for o in objs}:
                        return (mode + ":lost", "%d of %d classified" % (len(seen), len(objs)))
                elif mode == "via":
                    parts = hp.Via.classifier.partition(hp.idset(objs).nodes)
                    seen = set()
                    for kind, part in parts:
                        got = list(kind.arg)
                        for o in part.nodes:
                            seen.add(id(o))
                            exp = []
                            for r in rev.get(id(o), {}).values():
                                for rel in Path.relations(r, o):
                                    exp.append((rel.code, rel.r, r))
                            w.event("via-object")
                            g1 = [(x.kind, x.relator) for x in got]
                            # a reference that has no name is no relation
                            exp = [x for x in exp if x[0] > 0]
                            g1 = [x for x in g1 if x[0] > 0]
                            m = [x for x in exp if not any(eqrel(x, y) for y in g1)]
                            x2 = [y for y in g1 if not any(eqrel(x, y) for x in exp)]
                            if m or x2:
                                return ("via:" + tyname(o), "%s: missing relations %.300s, extra relations %.300s (%s)" % (
                                    describe(o), m, x2, ", ".join(map(describe, list(rev.get(id(o), {}).values())[:5]))))
                    if seen != {id(o) for o in objs}:
                        return ("via:lost", "%d of %d classified" % (len(seen), len(objs)))
                elif mode == "findex":
                    kinds, preds = zip(*[basic_kind(rng, hp, g, objs, inside) for _ in range(rng.randrange(1, 5))])
                    er = hp.findex(*kinds)
                    for kind, part in er.classifier.partition(hp.idset(objs).nodes):
                        for o in part.nodes:
                            exp = next((j for j, p in enumerate(preds) if p(o)), len(kinds))
                            w.event("findex-object")
                            if not kind == er(exp):
                                return ("findex", "%s gets alternative %s of %s, expected %d" % (describe(o), kind, kinds, exp))
                else:
                    sub = [o for o in objs if rng.random() < 0.5]
                    K = hp.idset(sub)
                    if not sub:
                        return
                    er = K.biper
                    si = ids(sub)
                    for kind, part in er.classifier.partition(hp.idset(objs).nodes):
                        for o in part.nodes:
                            w.event("idset-object")
                            exp = 0 if id(o) in si else 1
                            if not kind == er(exp):
                                return ("idset", "%s gets class %s of membership, expected %d" % (describe(o), kind, exp))
            if chk():
                # what is reachable may have changed by lazily created objects
                recompute()
                e.settled(chk)
            w.case((mode, len(objs), tuple(sorted({tyname(o) for o in objs}))[:4]))
        e.done()


def eqrel(a, b):
    if a[0] != b[0]:
        return False
    if a[1] is b[1]:
        return True
    try:
        return bool(a[1] == b[1])
    except Exception:
        return False


def basic_kind(rng, hp, g, objs, inside=None):
    """A kind with low-level support, and its predicate."""
    while True:
        r = rng.randrange(9)
        o = rng.choice(objs)
        if r == 0:
            t = type(o)
            return hp.Type(t), lambda x: type(x) is t
        if r == 1:
            t = rng.choice(type(o).__mro__)
            return hp.Type(t).alt("<="), lambda x: issubclass(type(x), t)
        if r == 2:
            n = hp.iso(o).size
            return hp.Size(n), lambda x: sys_size(hp, x) == n
        if r == 3:
            n = hp.iso(o).size + rng.randrange(-1, 2)
            c = rng.choice(["<", "<=", ">", ">="])
            f = {"<": int.__lt__, "<=": int.__le__, ">": int.__gt__, ">=": int.__ge__}[c]
            return hp.Size(n).alt(c), lambda x: f(sys_size(hp, x), n)
        if r == 4 and id(o) in inside:
            return hp.Id(id(o)), lambda x: x is o
        if r == 5:
            s = [x for x in objs if rng.random() < 0.4]
            if s:
                si = ids(s)
                return hp.idset(s), lambda x: id(x) in si
        if r == 6:
            t = type(o)
            if t is not dict:
                return hp.Clodo(t), lambda x: type(x) is t
        if r == 7:
            t = type(o)
            return ~hp.Type(t), lambda x: type(x) is not t
        if r == 8:
            t = type(o)
            n = rng.choice(type(o).__mro__)
            return hp.Type(n).alt(">="), lambda x: issubclass(n, type(x))


def sys_size(hp, o):
    return hp.iso(o).size


# ---------------------------------------------------------------- C03

def run_c03(w, e):
    hp, rng = e.hp, e.rng
    sm = Sampler(e)
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        g = sm.new()
        w.beat("C03 case %d kinds=%s" % (i, g.kinds))
        gc.collect()
        objs = list(ids(sm.draw(40)).values())
        inside = closure([g.root], e.edges)
        # the universe for claims: these objects and some of their types' instances
        def leaf():
            r = rng.random()
            if r < 0.05:
                return hp.Anything, lambda x: True, "Anything"
            if r < 0.09:
                return hp.Nothing, lambda x: False, "Nothing"
            if r < 0.12:
                return ~hp.Nothing, lambda x: True, "~Nothing"
            k, p = basic_kind(rng, hp, g, objs, inside)
            return k, p, str(k.fam.__class__.__name__)
        pool = [leaf() for _ in range(rng.randrange(2, 7))]
        for step in range(rng.randrange(3, 16)):
            op = rng.choice("&|-^~")
            (a, pa, na), (b, pb, nb) = rng.choice(pool), rng.choice(pool)
            w.beat("C03 case %d: %s %s %s" % (i, na, op, nb))
            desc = "(%s%s%s)" % (na, op, nb) if op != "~" else "~" + na
            if len(desc) > 250:
                continue
            r = kop(a, b, op)
            p = {"&": lambda x, pa=pa, pb=pb: pa(x) and pb(x), "|": lambda x, pa=pa, pb=pb: pa(x) or pb(x),
                 "-": lambda x, pa=pa, pb=pb: pa(x) and not pb(x), "^": lambda x, pa=pa, pb=pb: bool(pa(x)) != bool(pb(x)),
                 "~": lambda x, pa=pa: not pa(x)}[op]
            w.event("kind-op")
            pool.append((r, p, desc))
            check_kind(w, e, rng, r, p, desc, objs)
            claims(w, rng, pool, objs)
            w.case(desc)
        e.done()


def kop(a, b, op):
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "-":
        return a - b
    if op == "^":
        return a ^ b
    return ~a


def generic(desc):
    """Collapse a description into the shape used as a key."""
    return desc if len(desc) < 60 else desc[:60]


def check_kind(w, e, rng, r, p, desc, objs):
    hp = e.hp
    sub = [o for o in objs if rng.random() < 0.7]
    if not sub:
        return
    S = hp.idset(sub)
    exp = {id(o): o for o in sub if p(o)}
    got = ids((S & r).nodes) if rng.random() < 0.5 else ids((r & S).nodes)
    w.event("select")
    if got.keys() != exp.keys():
        bad = [o for o in sub if (id(o) in got) != (id(o) in exp)]
        w.violate("select:" + generic(desc), "set & %s: wrong about %s (%s)" % (desc, ", ".join(describe(o) for o in bad[:4]), r))
    for o in rng.sample(sub, min(4, len(sub))):
        if (o in r) != bool(p(o)):
            w.violate("in:" + generic(desc), "%s in %s is %r (%s)" % (describe(o), desc, o in r, r))
        w.event("in")
    # differences
    d = ids((S - r).nodes)
    if d.keys() != {id(o) for o in sub if not p(o)}:
        w.violate("minus:" + generic(desc), "set - %s is wrong (%s)" % (desc, r))


def claims(w, rng, pool, objs):
    (a, pa, na), (b, pb, nb) = rng.choice(pool), rng.choice(pool)
    if a <= b:
        w.event("claim<=")
        for o in objs:
            if pa(o) and not pb(o):
                w.violate("claim<=:%s:%s" % (generic(na), generic(nb)), "%s <= %s, but %s is in the first only" % (na, nb, describe(o)))
    if a == b:
        w.event("claim==")
        for o in objs:
            if bool(pa(o)) != bool(pb(o)):
                w.violate("claim==:%s:%s" % (generic(na), generic(nb)), "%s == %s, but %s is in one only" % (na, nb, describe(o)))
    if a >= b:
        w.event("claim>=")
        for o in objs:
            if pb(o) and not pa(o):
                w.violate("claim>=:%s:%s" % (generic(na), generic(nb)), "%s >= %s, but %s is in the second only" % (na, nb, describe(o)))
    if a.disjoint(b):
        w.event("claim-disjoint")
        for o in objs:
            if pa(o) and pb(o):
                w.violate("claim-disjoint:%s:%s" % (generic(na), generic(nb)), "%s disjoint %s, but %s is in both" % (na, nb, describe(o)))


# ---------------------------------------------------------------- P01

def run_p01(w, e):
    hp, rng = e.hp, e.rng
    sm = Sampler(e)
    names = ["Type", "Clodo", "Size", "Id", "Unity", "Module", "Rcs", "Via", "Idset", "Type&Size", "Clodo&Size", "Rcs&Type",
             "Size&Id", "Unity&Type", "Module&Size&Type"]
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        g = sm.new(rng.choice([3, 10, 30, 60, 120]))
        w.beat("P01 case %d kinds=%s" % (i, g.kinds))
        for _ in range(6):
            objs = sm.draw(rng.choice([1, 2, 5, 20, 60]))
            if rng.random() < 0.2:
                objs += [rng.randrange(10 ** 6) + 10 ** 6 for _ in range(rng.randrange(30))] + ["n%d" % j for j in range(rng.randrange(30))]
                objs = list(ids(objs).values())
            if rng.random() < 0.1:
                objs = list(closure([g.root], e.edges).values())
            name = rng.choice(names)
            S = sm.drawset(objs).by(name)
            w.beat("P01 case %d by %s of %d objects" % (i, name, len(objs)))
            part(w, e, S, objs, name)
            w.case((name, len(objs), tuple(sorted({tyname(o) for o in objs}))[:4]))
        e.done()


def part(w, e, S, objs, name):
    hp, rng = e.hp, e.rng
    before = [hp.iso(o).size for o in objs]
    p = S.partition
    rows = list(p.get_rows())
    if before != [hp.iso(o).size for o in objs]:
        w.event("unsettled")    # an object of the environment has changed its size
        return
    er = S.er
    all_ = ids(objs)
    seen = {}
    last = None
    cum = 0
    w.event("partition")
    for k, r in enumerate(rows):
        w.event("row")
        m = ids(r.set.nodes)
        if not m:
            w.violate("empty-row:" + name, "row %d is empty" % k)
        for j in m:
            if j in seen:
                w.violate("overlap:" + name, "an object is in rows %d and %d" % (seen[j], k))
            seen[j] = k
        n = sum(hp.iso(o).size for o in m.values())
        cum += n
        if (r.count, r.size, r.cumulsize, r.index) != (len(m), n, cum, k):
            w.violate("row-numbers:" + name, "row %d says %s, its objects give %s" % (k, (r.count, r.size, r.cumulsize, r.index), (len(m), n, cum, k)))
        if last is not None and n > last:
            w.violate("order:" + name, "row %d is larger than the row before it" % k)
        last = n
        if name != "Via" or k < 3:
            for o in list(m.values())[:3]:
                if name == "Id":
                    break
                if not er[hp.iso(o)] == r.kind:
                    w.violate("misfiled:" + name, "%s in row %d of kind %s is %s" % (describe(o), k, r.kind, er[hp.iso(o)]))
    if seen.keys() != all_.keys():
        w.violate("loss:" + name, "rows hold %d of %d objects" % (len(seen), len(all_)))
    if (p.count, p.size, p.numrows) != (len(all_), cum, len(rows)):
        w.violate("totals:" + name, "partition says %s, rows give %s" % ((p.count, p.size, p.numrows), (len(all_), cum, len(rows))))
    if name != "Id":
        for a in range(min(len(rows), 12)):
            for b in range(a):
                if rows[a].kind == rows[b].kind:
                    w.violate("same-kind:" + name, "rows %d and %d have the same kind" % (b, a))
    # access to rows, in any order and way
    n = len(rows)
    mem = [ids(r.set.nodes) for r in rows]
    for _ in range(6):
        k = rng.randrange(-n, n)
        if ids(S[k].nodes).keys() != mem[k].keys() or ids(p.get_set(k).nodes).keys() != mem[k].keys():
            w.violate("rowset:" + name, "access to row %d gives other objects" % k)
        r = p.get_row(k % n)
        if (r.count, r.size, r.name) != (rows[k].count, rows[k].size, rows[k].name):
            w.violate("get_row:" + name, "get_row(%d) gives another row" % (k % n))
        a = rng.randrange(n + 1)
        b = rng.randrange(a, n + 2)
        st = rng.choice([1, 1, 2, 5])
        exp = {}
        for x in mem[a:b:st]:
            exp.update(x)
        if ids(S[a:b:st].nodes).keys() != exp.keys():
            w.violate("rowslice:" + name, "rows %d:%d:%d give %d objects, expected %d" % (a, b, st, S[a:b:st].count, len(exp)))
        w.event("access")
    T = S.by(name)
    k = rng.randrange(n)
    if name == "Id":
        # a fresh partition that is entered somewhere in the middle gives the same rows
        T = hp.idset(objs).byid
        a, b = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
        exp = {}
        for x in mem[a:b]:
            exp.update(x)
        got = ids(T[a:b].nodes)
        sizes = sorted(hp.iso(o).size for o in got.values())
        if sizes != sorted(hp.iso(o).size for o in exp.values()):
            w.violate("midslice", "rows %d:%d of a fresh partition have other sizes" % (a, b))
    R = S[k]
    q = R.partition
    if q.count != len(mem[k]) or ids([o for x in q.get_rows() for o in x.set.nodes]).keys() != mem[k].keys():
        w.violate("row-partition:" + name, "the partition of a row is not the row")
    if [ids(x.nodes).keys() for x in S.parts] != [m.keys() for m in mem]:
        w.violate("parts:" + name, "parts are not the rows")


def run(w):
    e = Env(w)
    {"Z01": run_z01, "C04": run_c04, "C01": run_c01, "C02": run_c02, "C03": run_c03, "P01": run_p01}[w.args["mode"]](w, e)


if __name__ == "__main__":
    vw.main(run)
