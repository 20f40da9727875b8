"""Heap graph monitors: H01 H03 H04 H05 H06 over random closed object graphs.

The root of the view is set to the root of a generated graph, so the exact
answer of every query can be computed with a reference oracle that does not use
the code under test."""
import gc
import os
import sys
import types
import weakref

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vw
from vheap import Env, tyname, diffmsg, ids, compare
from vgraph import Graph, Refs, closure, describe, FrameType, CodeType, ProxyType, HEAPTYPE, real_dict, Leaf


# ---------------------------------------------------------------- H01

def run_h01(w, e):
    hp, hv, rng = e.hp, e.hv, e.rng
    i = 0
    planted = types.ModuleType("vg_planted")
    sys.modules["vg_planted"] = planted
    while w.more(i, w.args["n"]):
        i += 1
        real = rng.random() < 0.12
        g = e.graph()
        w.beat("H01 case %d real=%s kinds=%s" % (i, real, g.kinds))
        if real:
            case_real(w, e, g, planted)
        else:
            e.setroot(g)

            def chk():
                h = hp.heap()
                nodes = list(h.nodes)
                got = ids(nodes)
                if len(got) != len(nodes) or h.count != len(got):
                    return ("heap:dup", "heap() lists %d members, %d distinct, count %d" % (len(nodes), len(got), h.count))
                exp = closure([g.root], e.edges)
                w.event("heap-objects", len(exp))
                return compare("heap", exp, got)
            e.settled(chk)
            w.event("heap")
            # every object by itself
            cl = closure([g.root], e.edges)
            for o in list(cl.values()):
                r = e.check_member_edges(o)
                w.event("object-edges")
                if r:
                    e.settled(lambda: (lambda r: r and ("edges:" + r, r))(e.check_member_edges(o)))
            # chosen starting sets and exclusions
            pool = [o for o in g.objs]
            for _ in range(4):
                start = [rng.choice(pool) for _ in range(rng.randrange(4))]
                avoid = [rng.choice(pool) for _ in range(rng.randrange(5))]
                if rng.random() < 0.3:
                    avoid.append(rng.choice(list(cl.values())))
                A = e.mutnodeset(avoid) if rng.random() < 0.5 else e.immnodeset(avoid)
                S = e.immnodeset(start) if rng.random() < 0.5 else e.mutnodeset(start)

                def chk2():
                    got = ids(hv.reachable(S, A))
                    av = ids(avoid)
                    exp = closure(start, e.edges, av)
                    r = compare("reachable", exp, got)
                    if r:
                        return r
                    # avoiding except at the end
                    got = ids(hv.reachable_x(S, A))
                    exp = closure(start, lambda o: () if id(o) in av else e.edges(o))
                    return compare("reachable_x", exp, got)
                e.settled(chk2)
                w.event("reachable")
            w.case((len(g.objs) // 10, sorted(set(g.kinds))[:6], len(cl) // 200), None)
            del cl
        if rng.random() < 0.02:
            deep(w, e)
        e.done()
        g = None
    del sys.modules["vg_planted"]


def deep(w, e):
    """Long chains of one kind: no recursion, nothing lost."""
    rng = e.rng
    n = rng.choice([2000, 30000])
    kind = rng.randrange(4)
    o = None
    P = type("DeepP", (), {})
    for _ in range(n):
        if kind == 0:
            o = [o]
        elif kind == 1:
            o = (o,)
        elif kind == 2:
            o = {"n": o}
        else:
            p = P()
            p.n = o
            o = p
    w.beat("deep chain kind %d n %d" % (kind, n))
    e.View.root = o
    h = e.hp.heap()
    t = {0: list, 1: tuple, 2: dict, 3: P}[kind]
    c = sum(1 for x in h.nodes if type(x) is t)
    if not n <= c <= n + (5000 if kind in (1, 2) else 0):
        w.violate("deep", "a chain of %d %s shows %d of them" % (n, t.__name__, c))
    w.event("deep")
    h = None
    x = o
    # take it apart without recursion
    while x is not None:
        y = x[0] if kind < 2 else x["n"] if kind == 2 else x.n
        if kind == 0:
            x.clear()
        elif kind == 2:
            x.clear()
        elif kind == 3:
            del x.n
        x = y
    e.View.root = e.View.heapyc.RootState


def case_real(w, e, g, planted):
    hp, rng = e.hp, e.rng
    where = rng.randrange(5)
    held = []
    if where == 0:
        planted.x = g.root
    elif where == 1:
        planted.__dict__[("odd", "key")] = g.root
    elif where == 2:
        planted.cls = type("Holder", (), {"attr": g.root})
    elif where == 3:
        def holder(x=g.root):
            return x
        planted.f = holder
    else:
        planted.f = (lambda q: (lambda: q))(g.root)
    # things that must not show: garbage in cycles, and an object that only the analyser refers to
    a = Leaf("garbage")
    cyc = [a]
    cyc.append(cyc)
    ida = weakref.ref(a)
    s = hp.iso(Leaf("held by a set"))
    del a, cyc
    exp = closure([g.root], e.edges)
    missing_ok = len(exp)

    def chk():
        h = hp.heap()
        nodes = list(h.nodes)
        got = ids(nodes)
        if len(got) != len(nodes):
            return ("heap:dup", "duplicates in heap()")
        miss = [x for i, x in exp.items() if i not in got]
        if miss:
            return ("heap-real:%s" % "+".join(sorted({tyname(x) for x in miss})[:3]),
                    "heap() lacks %d of %d planted reachable objects (place %d): %s" % (len(miss), missing_ok, where, ", ".join(describe(x) for x in miss[:5])))
        for x in nodes:
            if type(x) is Leaf and x.label in ("garbage", "held by a set"):
                return ("heap-real:" + x.label, "heap() shows an object that is only %s" % x.label)
        return None
    e.settled(chk)
    if ida() is not None:
        w.note("garbage survived heap()")
    w.event("heap-real")
    w.event("heap-objects", len(exp))
    w.case(("real", where))
    planted.__dict__.clear()
    del s, held


# ---------------------------------------------------------------- H03

def run_h03(w, e):
    hp, rng = e.hp, e.rng
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        g = e.graph()
        e.setroot(g)
        undos = []
        steps = rng.randrange(2, 9)
        for s in range(steps):
            w.beat("H03 case %d step %d kinds=%s" % (i, s, g.kinds))
            cl = closure([g.root], e.edges)
            rev = {}
            out = {}
            for o in cl.values():
                out[id(o)] = t = ids(e.edges(o))
                for j in t:
                    rev.setdefault(j, {})[id(o)] = o
            allo = list(cl.values())
            for _ in range(rng.randrange(2, 7)):
                k = rng.choice([0, 1, 1, 1, 2, 3, 8])
                pool = g.objs if rng.random() < 0.7 else allo
                X = [rng.choice(pool) for _ in range(k)]
                if rng.random() < 0.1:
                    X.append(Leaf("outside"))
                if rng.random() < 0.1:
                    X.append(g.root)
                if rng.random() < 0.1:
                    X.append([Leaf("y"), X[:1]])
                S = hp.iso(*X) if rng.random() < 0.7 else hp.idset(X)

                def chk():
                    exp = {}
                    for x in X:
                        exp.update(rev.get(id(x), {}))
                    return compare("referrers", exp, ids(S.referrers.nodes))

                def chk2():
                    exp = {}
                    for x in X:
                        exp.update(ids(e.edges(x)))
                    return compare("referents", exp, ids(S.referents.nodes))
                q = rng.randrange(3)
                if q != 1:
                    r = chk()
                    if r:
                        # The closure may be out of date through lazily created objects: recompute once.
                        gc.collect()
                        cl = closure([g.root], e.edges)
                        rev.clear()
                        for o in cl.values():
                            for j in ids(e.edges(o)):
                                rev.setdefault(j, {})[id(o)] = o
                        e.settled(chk)
                    w.event("referrers-query")
                if q != 0:
                    e.settled(chk2)
                    w.event("referents-query")
                w.case((len(X), q, s, tuple(sorted({tyname(x) for x in X}))))
            # the program changes references
            for _ in range(rng.randrange(0, 5)):
                if undos and rng.random() < 0.4:
                    undos.pop(rng.randrange(len(undos)))()
                    w.event("unlink")
                else:
                    if rng.random() < 0.3:
                        g.add()
                    u = g.link(g.pick(), g.pick())
                    if u:
                        undos.append(u)
                        w.event("link")
            if rng.random() < 0.15:
                e.View.root = e.View.heapyc.RootState
                e.setroot(g)
            r = rng.random()
            if r < 0.5:
                gc.collect()
            elif r < 0.9:
                hp.heap()
            else:
                gc.collect()
                hp.heap()
        e.done()
        g = None


# ---------------------------------------------------------------- H04

KNOWN = (list, tuple, dict, set, frozenset, types.FunctionType, types.ModuleType, FrameType, types.CellType, type, CodeType, ProxyType,
         types.MethodType, types.BuiltinFunctionType, slice)


def relation_true(src, code, r, tgt):
    """Is the relation (code, r) from src to tgt true?  None when it cannot be judged."""
    import guppy.heapy.Path as P
    if code == P.R_ATTRIBUTE.code:
        d = None
        if isinstance(src, type):
            if r == "__dict__":
                return real_dict(src) is tgt
        try:
            d = object.__getattribute__(src, "__dict__") if not isinstance(src, type) else None
        except AttributeError:
            pass
        if isinstance(d, dict):
            for k, v in dict.items(d):
                if k is r or (type(k) is str and type(r) is str and k == r):
                    if v is tgt:
                        return True
        if not isinstance(r, str):
            return False
        if type(src) is FrameType and r in ("f_locals",):
            return src.f_locals is tgt
        for c in type(src).__mro__:
            m = c.__dict__.get(r)
            if m is not None and hasattr(type(m), "__get__"):
                try:
                    if m.__get__(src, type(src)) is tgt:
                        return True
                except Exception:
                    pass
        try:
            v = getattr(src, r)
        except Exception:
            return False
        if v is tgt:
            return True
        if type(src) is types.BuiltinFunctionType and r == "__self__":
            # (None for static methods, although the function refers to its type)
            return any(x is tgt for x in gc.get_referents(src))
        if type(src) is CodeType:
            if r == "co_weakreflist":
                return isinstance(tgt, weakref.ref)
            return type(v) is type(tgt) and v == tgt
        return False
    if code == P.R_INDEXVAL.code:
        if isinstance(src, list):
            return list.__getitem__(src, r) is tgt
        if isinstance(src, tuple):
            return tuple.__getitem__(src, r) is tgt
        if isinstance(src, dict):
            return any(k is r and v is tgt for k, v in dict.items(src))
        if isinstance(src, ProxyType):
            return any(k is r and v is tgt for k, v in src.items())
        return None
    if code == P.R_INDEXKEY.code:
        if isinstance(src, (dict, ProxyType)):
            ks = list(dict.keys(src)) if isinstance(src, dict) else list(src)
            return 0 <= r < len(ks) and ks[r] is tgt
        return None
    if code == P.R_HASATTR.code:
        try:
            ks = list(object.__getattribute__(src, "__dict__"))
        except AttributeError:
            return False
        return 0 <= r < len(ks) and ks[r] is tgt
    if code == P.R_LOCAL_VAR.code:
        v = src.f_locals.get(r)
        return v is tgt or (type(tgt) is types.CellType and (gc.get_referents(tgt) or [None])[0] is v)
    if code == P.R_CELL.code:
        return src.f_locals.get(r) is tgt
    if code == P.R_INSET.code:
        l = list(set.__iter__(src)) if isinstance(src, set) else list(frozenset.__iter__(src)) if isinstance(src, frozenset) else list(src)
        return 0 <= r < len(l) and l[r] is tgt
    if code == P.R_INTERATTR.code:
        if r == "ob_type":
            return type(src) is tgt
        if r == "tp_subclasses":
            return type(tgt) is dict
        if r == "tp_cache":
            return True
        if r == "ht_module":
            return type(tgt) is types.ModuleType
        if r == "mapping":
            return gc.get_referents(src)[0] is tgt
        if r == "f_funcobj":
            return type(tgt) is types.FunctionType and tgt.__code__ is src.f_code
        if r in ("co_localsplusnames",):
            return type(tgt) is tuple and set(src.co_varnames) <= set(tgt)
        if r in ("co_localspluskinds",):
            return type(tgt) is bytes
        if r.startswith("edges["):
            i, what = r[6:].split("].")
            l = sorted(src, key=lambda p: id(p[0]))
            ok = [p for p in src if p[0 if what == "src" else 1] is tgt]
            return bool(ok) and int(i) < len(l)
        return None
    return None


def known_type(o):
    """Types whose structure the analyser knows: every reference must be named."""
    t = type(o)
    if isinstance(o, KNOWN):
        return True
    if t.__module__ == "guppy.sets.setsc" or t.__name__ == "NodeGraph":
        return True
    # instances of Python classes whose bases are plain
    return all(c is object or c.__module__.startswith("vg") for c in t.__mro__)


def run_h04(w, e):
    hp, hv, rng = e.hp, e.hv, e.rng
    Path = hp._parent.Path
    rel_code = {id(c): k for k, c in Path.rel_table.items()}
    w.norel = 0
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        g = e.graph()
        e.setroot(g)
        w.beat("H04 case %d kinds=%s" % (i, g.kinds))
        if rng.random() < 0.3:
            relate_frames(w, e, g, Path)
        cl = closure([g.root], e.edges)
        objs = list(cl.values())
        mine = ids(g.objs)
        if len(objs) > 400:
            keep = [o for o in objs if id(o) in mine]
            objs = keep + rng.sample(objs, min(200, len(objs)))
        for o in objs:
            if type(o).__name__ == "NodeGraph":
                list(o)
            out = e.edges(o)
            for t in ids(out).values():
                relate_pair(w, e, Path, o, t, out, True)
            for _ in range(2):
                u = rng.choice(g.objs)
                relate_pair(w, e, Path, o, u, out, False)
        w.case((len(g.objs) // 5, tuple(sorted(set(g.kinds))[:8])))
        e.done()
        g = None


def relate_pair(w, e, Path, o, t, out, edge):
    rels = Path.relations(o, t)
    w.event("pair")
    real = 0
    for rel in rels:
        code = rel.code
        if code == -1:
            continue
        if code == 0:
            if o is not t:
                w.violate("identity", "identity relation between distinct objects")
            continue
        real += 1
        ok = relation_true(o, code, rel.r, t)
        w.event("relation")
        if ok is False:
            w.violate("untrue:%s:%s:%s" % (tyname(o), code, rel.r if isinstance(rel.r, str) and not rel.r.startswith(("k", "attr", "edges")) else type(rel.r).__name__),
                      "relation %r of a %s to a %s is not true" % (str(rel), describe(o), describe(t)))
        elif ok is None:
            w.event("relation-unjudged")
        s = rel.stra("x")
        if not isinstance(s, str):
            w.violate("label", "label is not a text")
    is_edge = any(x is t for x in out)
    if is_edge and known_type(o) and not real:
        # hidden parts of types: caches and generic members
        if not (isinstance(o, types.ModuleType) and t is not o.__dict__):
            if not (type(o) is types.BuiltinFunctionType) and not w_unnamed_ok(o, t):
                w.violate("unnamed:%s:%s" % (tyname(o), tyname(t)), "no relation reported for the reference of a %s to a %s" % (describe(o), describe(t)))
    if not isinstance(o, type) and type(o) not in (FrameType, CodeType) and type(o).__module__ not in ("guppy.sets.setsc", "guppy.heapy.heapyc"):
        n = e.hv.numedges(o, t)
        m = sum(1 for x in gc.get_referents(o) if x is t)
        w.event("numedges")
        if n != m:
            w.violate("numedges:" + tyname(o), "numedges(%s, %s) is %d; the object refers to it %d times" % (describe(o), describe(t), n, m))
    if is_edge and type(o) in (list, tuple):
        exp = sum(1 for x in o if x is t)
        if real != exp + (type(o) is t):
            w.violate("count:" + tyname(o), "%d relations for %d references from a %s" % (real, exp, type(o).__name__))
    elif is_edge and type(o) is dict:
        exp = sum((k is t) + (v is t) for k, v in o.items())
        if real != exp + (type(o) is t):
            w.violate("count:dict", "%d relations for %d references from a dict" % (real, exp))
    if len(set(map(str, rels))) != len(rels) and type(o) is not dict and not isinstance(o, dict):
        l = [str(r) for r in rels]
        w.violate("dup:" + tyname(o), "relation reported twice from a %s: %s" % (describe(o), l[:5]))


def w_unnamed_ok(o, t):
    # a base class that is written in C may hold references that have no name
    return isinstance(o, (types.MethodType,)) or (isinstance(o, set) and False)


def relate_frames(w, e, g, Path):
    """Frames of a traceback, with locals, cells and free variables."""
    ns = g.g
    a, b = g.pick(), g.pick()

    def thrower(p, q):
        z = [p]

        def inner(y=q):
            u = z
            raise ValueError(p, u, y)
        inner()
    try:
        thrower(a, b)
    except ValueError as ex:
        tb = ex.__traceback__
    fr = []
    t = tb
    while t:
        fr.append(t.tb_frame)
        t = t.tb_next
    for f in fr[1:]:
        f.f_locals
        must, may = e.refs.edges(f)
        for x in ids(must).values():
            rels = Path.relations(f, x)
            w.event("pair")
            if [r.code for r in rels] == [-1]:
                w.violate("unnamed:frame", "no relation reported for the reference of a frame to a %s" % describe(x))
            for r in rels:
                if r.code > 0:
                    ok = relation_true(f, r.code, r.r, x)
                    w.event("relation")
                    if ok is False:
                        w.violate("untrue:frame:%s:%s" % (r.code, r.r), "relation %s of a frame to %s is not true" % (r, describe(x)))
            l = [str(r) for r in rels]
            if len(set(l)) != len(l):
                w.violate("dup:frame", "relation reported twice: %s" % l)
    t = tb
    while t:
        for x in [t.tb_frame] + ([t.tb_next] if t.tb_next else []):
            rels = Path.relations(t, x)
            if not any(r.code == 1 and getattr(t, r.r) is x for r in rels):
                w.violate("unnamed:traceback", "no true relation from a traceback to its %s" % describe(x))
        t = t.tb_next
    w.event("frames")


# ---------------------------------------------------------------- H05

def run_h05(w, e):
    hp, rng = e.hp, e.rng
    Path = hp._parent.Path
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        g = e.graph()
        if rng.random() < 0.4:
            # layered graphs have many shortest paths
            layers = [[[] for _ in range(rng.randrange(1, 4))] for _ in range(rng.randrange(2, 6))]
            for a, b in zip(layers, layers[1:]):
                for x in a:
                    for y in b:
                        for _ in range(rng.choice([0, 1, 1, 2])):
                            x.append(y)
            g.objs += [x for l in layers for x in l]
            g.kinds += ["list"] * sum(map(len, layers))
            top = g.pick()
            for x in layers[0]:
                g.link(top, x) or g.objs[0:0]
            if isinstance(g.root, (list, dict)):
                for j, x in enumerate(layers[0]):
                    g.root.append(x) if isinstance(g.root, list) else g.root.__setitem__("L%d" % j, x)
        e.setroot(g)
        w.beat("H05 case %d kinds=%s" % (i, g.kinds))
        for _ in range(5):
            one_path(w, e, g, Path)
        e.done()
        g = None


def one_path(w, e, g, Path):
    hp, rng = e.hp, e.rng
    pool = g.objs
    dst = [rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    explicit = rng.random() < 0.5
    src = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))] if explicit else [g.root]
    srcids = ids(src)
    dst = [d for d in dst if id(d) not in srcids]
    if not dst:
        return
    avn = [rng.choice(pool) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    ave = []
    if rng.random() < 0.3:
        for _ in range(rng.randrange(1, 4)):
            a = rng.choice(pool)
            es = e.edges(a)
            if es:
                ave.append((a, rng.choice(es)))
    D = hp.iso(*dst)
    kw = {}
    if avn:
        kw["avoid_nodes"] = hp.iso(*avn) if rng.random() < 0.5 else hp.idset(avn)
    if ave:
        kw["avoid_edges"] = ave
    avni = ids(avn)
    avei = {(id(a), id(b)) for a, b in ave}
    dids = ids(dst)

    def expected(avei=avei, srcids=srcids, dids=dids):
        layer = {i: o for i, o in srcids.items() if i not in avni}
        starts = dict(layer)
        seen = dict(avni)
        seen.update(layer)
        preds = {}
        dist = 0
        while layer:
            dist += 1
            nxt = {}
            for i, o in layer.items():
                for t in ids(e.edges(o)).values():
                    if id(t) in seen or (i, id(t)) in avei:
                        continue
                    nxt[id(t)] = t
                    preds.setdefault(id(t), []).append(o)
            seen.update(nxt)
            found = {i: o for i, o in nxt.items() if i in dids}
            if found:
                return dist, found, preds, starts
            layer = nxt
        return None, {}, {}, {}

    def count(found, preds, starts):
        memo = {}

        def np(o):
            if id(o) in starts:
                return 1
            if id(o) not in memo:
                memo[id(o)] = sum(np(p) * len(Path.relations(p, o)) for p in preds[id(o)])
            return memo[id(o)]
        return sum(np(o) for o in found.values())

    def chk():
        if explicit:
            sp = D.get_shpaths(hp.iso(*src), **kw)
        elif kw:
            sp = D.get_shpaths(**kw)
        else:
            sp = D.shpaths if rng.random() < 0.5 else D.get_shpaths()
        dist, found, preds, starts = expected()
        return judge(sp, dist, found, preds, starts)

    def judge(sp, dist, found, preds, starts, name="paths"):
        n = sp.numpaths
        exp = count(found, preds, starts)
        w.event("paths-query")
        if dist is None:
            if n != 0 or list(sp):
                return (name + ":phantom", "%d paths reported where no chain exists" % n)
            w.event("no-path")
            return None
        if n != exp:
            return (name + ":number", "numpaths is %d; there are %d shortest chains" % (n, exp))
        if exp > 3000:
            return None
        lst = list(sp)
        if len(lst) != exp:
            return (name + ":enumerated", "%d paths are enumerated; numpaths is %d" % (len(lst), exp))
        seen = set()
        for k, p in enumerate(lst):
            w.event("path")
            objs = p.path[0::2]
            rels = p.path[1::2]
            objs = [o.theone for o in objs]
            if len(p) != dist or len(objs) != dist + 1:
                return (name + ":length", "a path of %d steps; the distance is %d" % (len(p), dist))
            if id(objs[0]) not in starts:
                return (name + ":start", "path starts at %s" % describe(objs[0]))
            if id(objs[-1]) not in dids:
                return (name + ":end", "path ends at %s" % describe(objs[-1]))
            for a, r, b in zip(objs, rels, objs[1:]):
                if not any(x is b for x in e.edges(a)):
                    return (name + ":step", "step from %s to %s is no reference" % (describe(a), describe(b)))
                if id(b) in avni or (id(a), id(b)) in cur_avoid[0]:
                    return (name + ":avoid", "path goes through an excluded object or edge")
                if r.code > 0 and relation_true(a, r.code, r.r, b) is False:
                    return (name + ":relation", "step %s from %s to %s is not true" % (r, describe(a), describe(b)))
            key = (tuple(map(id, objs)), tuple((r.code, id(r.r) if not isinstance(r.r, (str, int)) else r.r) for r in rels))
            if key in seen:
                return (name + ":twice", "the same path appears twice: %s" % p)
            seen.add(key)
            if p.index != k:
                return (name + ":index", "path %d has index %d" % (k, p.index))
        # indexing and partial iteration
        for _ in range(3):
            k = rng.randrange(-exp, exp)
            p, q = sp[k], lst[k]
            if str(p) != str(q) or [id(x.theone) for x in p.path[0::2]] != [id(x.theone) for x in q.path[0::2]]:
                return (name + ":getitem", "paths[%d] differs from the enumerated path" % k)
            a = rng.randrange(exp + 1)
            b = rng.randrange(a, exp + 2)
            part = [str(x) for x in sp.iter(a, b)]
            if part != [str(x) for x in lst[a:b]]:
                return (name + ":iter", "iter(%d, %d) of %d paths gives %d paths, not those" % (a, b, exp, len(part)))
            w.event("path-index")
        for k in (exp, exp + 3, -exp - 1):
            try:
                sp[k]
            except IndexError:
                pass
            else:
                return (name + ":indexerror", "index %d of %d paths is accepted" % (k, exp))
        if sp.aslist() != lst:
            return (name + ":aslist", "aslist differs")
        # the levels
        if len(sp.edges) != dist or len(sp.sets) != dist + 1:
            return (name + ":levels", "%d edge levels and %d sets for distance %d" % (len(sp.edges), len(sp.sets), dist))
        lv = [set() for _ in range(dist + 1)]
        for p in lst:
            for k, x in enumerate(p.path[0::2]):
                lv[k].add(id(x.theone))
        for k in range(dist + 1):
            if {id(x) for x in sp.sets[k].nodes} != lv[k]:
                return (name + ":sets", "sets[%d] is not the set of objects at that step" % k)
        return None

    cur_avoid = [avei]
    e.settled(chk)
    dist, found, preds, starts = expected()
    if dist and rng.random() < 0.5:
        # the same paths with the edges of one level excluded
        sp = D.get_shpaths(hp.iso(*src), **kw) if explicit else D.get_shpaths(**kw)
        lev = rng.randrange(-dist, dist)
        av2 = sp.avoided(lev)
        more = {(id(a), id(b)) for a, b in sp.edges[lev]}
        # avoided() is about the sources and targets that the paths really have, and
        # does not repeat the exclusion of objects
        if not avn:
            cur_avoid[0] = avei | more
            res = expected(avei | more, ids(sp.Src.nodes), ids(sp.Dst.nodes))
            r = judge(av2, *res, name="avoided")
            if r:
                w.violate(r[0], r[1])
            w.event("avoided")
        cur_avoid[0] = avei
    w.case((dist, len(found), explicit, bool(avn), bool(ave)))


# ---------------------------------------------------------------- H06

def run_h06(w, e):
    hp, rng = e.hp, e.rng
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        g = e.graph()
        e.setroot(g)
        w.beat("H06 case %d kinds=%s" % (i, g.kinds))
        for _ in range(6):
            X = [rng.choice(g.objs) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 6]))]
            if rng.random() < 0.05:
                X.append(g.root)
            if rng.random() < 0.15:
                X.append([Leaf("outside"), rng.choice(g.objs)])
            S = hp.iso(*X) if rng.random() < 0.7 else hp.idset(X)
            xi = ids(X)

            def chk():
                without = closure([g.root], e.edges, xi)
                exp = closure(X, e.edges, without) if X else {}
                for j, o in xi.items():
                    exp[j] = o
                got = S.dominos
                r = compare("dominos", exp, ids(got.nodes))
                if r:
                    return r
                size = sum(hp.iso(o).size for o in exp.values())
                if S.domisize != size:
                    return ("domisize", "domisize is %d; its %d members have %d" % (S.domisize, len(exp), size))
                if got.size != size:
                    return ("dominos.size", "size of the dominated set is %d, not %d" % (got.size, size))
                if S.indisize != sum(hp.iso(o).size for o in xi.values()):
                    return ("indisize", "indisize is not the sum over the members")
                return None
            e.settled(chk)
            w.event("dominos")

            def chk2():
                cl = closure([g.root], e.edges)
                pred = {j: o for j, o in cl.items() if any(id(t) in xi for t in e.edges(o))}
                vis = closure([g.root], lambda o: () if id(o) in pred else e.edges(o))
                exp = {j: o for j, o in pred.items() if j in vis}
                gc.collect()
                return compare("imdom", exp, ids(S.imdom.nodes))
            e.settled(chk2)
            w.event("imdom")
            w.case((len(X), tuple(sorted({tyname(x) for x in X}))))
        # several sets at once
        if rng.random() < 0.5:
            sets_ = [hp.iso(*[rng.choice(g.objs) for _ in range(rng.randrange(1, 3))]) for _ in range(3)]
            alls = {}
            for s in sets_:
                alls.update(ids(s.nodes))
            # dominos_tuple: what falls with each set when all of them fall

            def chk3():
                W = closure([g.root], e.edges, alls)
                res = e.View.dominos_tuple(sets_)
                for s, d in zip(sets_, res):
                    si = ids(s.nodes)
                    base = closure(list(si.values()), e.edges, W)
                    other = closure(list(alls.values()), e.edges, {**W, **si})
                    exp = {j: o for j, o in base.items() if j not in other}
                    r = compare("dominos_tuple", exp, ids(d.nodes))
                    if r:
                        return r
            e.settled(chk3)
            w.event("dominos-tuple")
        e.done()
        g = None


def run(w):
    e = Env(w)
    {"H01": run_h01, "H03": run_h03, "H04": run_h04, "H05": run_h05, "H06": run_h06}[w.args["mode"]](w, e)


vw.main(run)
