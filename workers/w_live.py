"""Monitors on the live process: H02 H07 H08 H09."""
import array
import collections
import functools
import gc
import io
import itertools
import operator
import os
import re
import sys
import types
import weakref

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vw
from vheap import Env, ids, compare, diffmsg, tyname
from vgraph import closure, describe


# ---------------------------------------------------------------- H07: horizons

class P:
    pass


class S:
    __slots__ = "a", "__weakref__"


class L(list):
    pass


class D(dict):
    pass


class T(tuple):
    pass


class I(int):
    pass


class F(float):
    pass


class St(str):
    pass


class Pt(functools.partial):
    pass


class Dq(collections.deque):
    pass


class Ex(Exception):
    pass


class Fin:
    def __del__(self):
        self.x = None


class Phoenix:
    """Comes back when it is finalised."""
    where = []

    def __del__(self):
        Phoenix.where.append(self)


class Meta(type):
    pass


def mkgen(x):
    yield x


def mkfun(x):
    def f():
        return x
    return f


def makers(sets):
    n = itertools.count(10 ** 6)
    m = {
        "plain": lambda a: P(), "slots": lambda a: S(), "list": lambda a: [a], "emptylist": lambda a: [], "dict": lambda a: {1: a},
        "emptydict": lambda a: {}, "tuple": lambda a: (a, next(n)), "tuple1": lambda a: (a,), "set": lambda a: {next(n)},
        "frozenset": lambda a: frozenset([next(n)]), "bytes": lambda a: b"b%d" % next(n), "bytearray": lambda a: bytearray(5),
        "str": lambda a: "s%d" % next(n), "int": lambda a: 2 ** 40 + next(n), "float": lambda a: float("%d.5" % next(n)),
        "complex": lambda a: complex(next(n), 1), "object": lambda a: object(), "fun": lambda a: mkfun(a), "gen": lambda a: mkgen(a),
        "method": lambda a: P().__init__, "bound": lambda a: types.MethodType(print, a or 1), "cell": lambda a: types.CellType(a),
        "slice": lambda a: slice(a, 1), "range": lambda a: range(next(n)), "listiter": lambda a: iter([a]), "memoryview": lambda a: memoryview(b"xyz"),
        "L": lambda a: L([a]), "D": lambda a: D(x=a), "T": lambda a: T([a]), "I": lambda a: I(next(n)), "F": lambda a: F(1.5), "St": lambda a: St("q"),
        "partial": lambda a: functools.partial(print, a), "Pt": lambda a: Pt(print, a), "deque": lambda a: collections.deque([a]),
        "Dq": lambda a: Dq([a]), "count": lambda a: itertools.count(next(n)), "chain": lambda a: itertools.chain([a]), "array": lambda a: array.array("i", [1]),
        "bytesio": lambda a: io.BytesIO(), "stringio": lambda a: io.StringIO(), "match": lambda a: re.match("a+", "aa"),
        "itemgetter": lambda a: operator.itemgetter(a), "exc": lambda a: ValueError(a), "Ex": lambda a: Ex(a), "fin": lambda a: Fin(),
        "class": lambda a: type("C%d" % next(n), (), {}), "meta": lambda a: Meta("M%d" % next(n), (), {}), "module": lambda a: types.ModuleType("m"),
        "namespace": lambda a: types.SimpleNamespace(x=a), "property": lambda a: property(a), "weakref": lambda a: weakref.ref(P()),
        "defaultdict": lambda a: collections.defaultdict(list), "ordered": lambda a: collections.OrderedDict(x=a), "enumerate": lambda a: enumerate([a]),
        "map": lambda a: map(a, []), "zip": lambda a: zip([a]), "mutbitset": lambda a: sets.mutbitset([1, 2]), "immbitset": lambda a: sets.immbitset([next(n)]),
        "mutnodeset": lambda a: sets.mutnodeset([a]), "immnodeset": lambda a: sets.immnodeset([P()]), "code": lambda a: compile("%d" % next(n), "f", "eval"),
    }
    return m


class Horizons:
    def __init__(self, w):
        from guppy import sets
        from guppy.heapy import heapyc
        self.w, self.heapyc = w, heapyc
        self.makers = makers(sets)
        self.late = [n for n in ("datetime", "_elementtree", "_decimal", "decimal", "_lsprof", "_queue", "_zoneinfo", "_ssl", "sqlite3", "_asyncio", "mmap",
                                 "_multiprocessing", "unicodedata", "select", "_socket", "_bisect", "_heapq", "_json", "_pickle", "_ctypes", "zlib", "pyexpat")
                     if n not in sys.modules]

    def one(self, rng, horizon=None):
        """Objects come and go under several horizons."""
        w = self.w
        mk = self.makers
        kinds = rng.sample(sorted(mk), rng.choice([1, 2, 4, 12]))
        live = {}              # serial -> object
        hs = []                # [horizon, serials]
        dead = set()           # addresses of members that died
        addr = {}
        log = []
        serial = itertools.count()

        def create(n):
            k = rng.choice(kinds)
            for i in range(n):
                a = None
                if live and rng.random() < .3:
                    a = live[rng.choice(list(live))]
                o = mk[k](a)
                if isinstance(o, weakref.ref) and o() is None and any(x is o for x in live.values()):
                    continue
                s = next(serial)
                live[s] = o
                addr[s] = id(o)
                if id(o) in dead:
                    w.event("reused-address")
            log.append("create %d %s" % (n, k))

        def kill(n):
            ss = rng.sample(list(live), min(n, len(live)))
            unwind = rng.random() < .3
            for s in ss:
                if any(s in m for _, m in hs):
                    dead.add(addr[s])
                if unwind:
                    # it dies while an exception is on its way
                    try:
                        (live.pop(s), live["no such"])
                    except KeyError:
                        pass
                else:
                    del live[s]
            log.append("drop %d%s" % (len(ss), " by an exception" if unwind else ""))
            if unwind:
                w.event("unwound")
            if rng.random() < .3:
                gc.collect()

        def check():
            for j, (h, members) in enumerate(hs):
                ask = dict(live)
                if rng.random() < .3 and ask:
                    ask = {s: ask[s] for s in rng.sample(list(ask), len(ask) // 2)}
                want = {id(o) for s, o in ask.items() if s not in members}
                arg = list(ask.values())
                if rng.random() < .3:
                    from guppy import sets
                    arg = sets.mutnodeset(arg) if rng.random() < .5 else sets.immnodeset(arg)
                got = {id(x) for x in h.news(arg)}
                w.event("news", len(want))
                w.event("old", len(ask) - len(want))
                if got != want:
                    missing = {k for k in want - got}
                    extra = got - want
                    names = sorted({type(o).__name__ for o in ask.values() if id(o) in missing})
                    namex = sorted({type(o).__name__ for o in ask.values() if id(o) in extra})
                    w.violate("news:%s" % ("missing" if missing else "old shown"),
                              "horizon %d of %d: %d new objects are not shown (%s), %d old ones are (%s)\n%s" % (
                                  j, len(hs), len(missing), names, len(extra), namex, "\n".join(log[-30:])))
                    return False
            return True

        create(rng.choice([5, 30, 200]))
        for i in range(rng.choice([6, 20, 40])):
            r = rng.random()
            w.beat("horizon step %d %s" % (i, log[-1]))
            if r < .35:
                create(rng.choice([1, 5, 40, 150]))
            elif r < .6:
                kill(rng.choice([1, 5, 40, 150]))
            elif r < .72 and len(hs) < 5:
                ss = list(live) if rng.random() < .7 else rng.sample(list(live), len(live) // 2)
                it = [live[s] for s in ss]
                form = rng.randrange(3)
                h = self.heapyc.Horizon(it if form == 0 else (x for x in it) if form == 1 else tuple(it))
                del it
                hs.append((h, set(ss)))
                log.append("horizon of %d" % len(ss))
            elif r < .8 and hs:
                del hs[rng.randrange(len(hs))]
                h = None
                log.append("drop horizon")
                w.event("horizon-dropped")
            elif r < .83 and hs:
                if not self.deep(rng):
                    return
                log.append("deep nesting")
            elif r < .86 and self.late and hs:
                n = self.late.pop(rng.randrange(len(self.late)))
                self.import_late(n)
                log.append("import " + n)
            elif r < .9:
                o = Phoenix()
                s = next(serial)
                live[s] = o
                addr[s] = id(o)
                if rng.random() < .6:
                    hs.append((self.heapyc.Horizon(list(live.values())), set(live)))
                    h = None
                del live[s], o
                if len(Phoenix.where) != 1:
                    w.error("no resurrection")
                    return
                # the same object as before, alive again
                live[s] = Phoenix.where.pop()
                w.event("resurrected")
                log.append("resurrection")
            elif hs:
                if not check():
                    return
        check()
        h = None
        hs.clear()
        live.clear()
        w.case(sig=("horizon", tuple(kinds), tuple(log[:12])), sample="; ".join(log[:12]))

    def deep(self, rng):
        k = rng.randrange(6)
        n = rng.choice([10000, 60000, 200000])
        x = None
        for i in range(n):
            x = [x] if k == 0 else (x,) if k == 1 else {1: x} if k == 2 else L([x]) if k == 3 else (
                [x] if i % 3 else (x,) if i % 2 else T([x])) if k == 4 else types.SimpleNamespace(x=[x]) if i % 100 == 0 else [x]
        self.w.beat("deep nesting of kind %d, depth %d" % (k, n))
        del x
        self.w.event("deep")
        return True

    def import_late(self, n):
        self.w.beat("import of %s under a horizon" % n)
        try:
            m = __import__(n)
        except ImportError:
            return
        for v in list(vars(m).values()):
            if isinstance(v, type):
                for a in ((), (1,), (2020, 1, 1)):
                    if v.__name__ in ("Popen", "Process", "socket", "SSLSocket"):
                        continue
                    try:
                        x = v(*a)
                    except Exception:
                        continue
                    del x
                    self.w.event("late-type")
                    break


def specialised(w):
    """Objects that the interpreter frees without the destructor of their type."""
    from guppy.heapy import heapyc

    def ints(l):
        while l:
            x = l.pop() + 1

    def strs(l):
        while l:
            x = l.pop() + l.pop()
    for f, mk in (ints, lambda j: 10 ** 12 + j), (strs, lambda j: "text %d" % j):
        for i in range(3):
            f([mk(j) for j in range(200)])
        l = [mk(j) for j in range(400)]
        h = heapyc.Horizon(l)
        f(l)
        n = [mk(j + 1000) for j in range(400)]
        got = {id(x) for x in h.news(n)}
        if len(got) != len(n):
            w.violate("horizon:specialised-dealloc", "new objects at the addresses of ints or strings that an arithmetic instruction released are not shown: %d of %d" % (
                len(n) - len(got), len(n)))
        w.event("specialised")


# ---------------------------------------------------------------- H07: reference points

class Setref:
    def __init__(self, w):
        self.w = w
        self.e = Env(w)

    def rooted(self, rng):
        """A reference point in a session rooted at a generated graph."""
        w, e = self.w, self.e
        hp = e.hp
        g = e.graph()
        e.setroot(g)
        extra = []
        g.root_extra = extra
        # everything that is added later hangs on this list
        top = [g.root, extra]
        e.View.root = top
        log = []

        def absolute():
            return ids(e.View.heap().nodes)

        def settle():
            for i in range(3):
                a = absolute()
                if absolute().keys() == a.keys():
                    return a
            return a

        base = None           # id -> object kept
        gcobjs = {}
        n = 0
        for step in range(rng.choice([4, 8, 16])):
            r = rng.random()
            w.beat("setref step %d %s" % (step, log[-3:]))
            if r < .25:
                settle()
                hp.setref(reachable=None) if False else hp.setrelheap()
                base = ids(hp.relheap.nodes)
                now = absolute()
                if base.keys() != now.keys():
                    w.violate("setref:contents", "the reference point has %d objects, the heap %d\n%s" % (len(base), len(now), log))
                    return
                log.append("setref")
                w.event("setref")
            elif r < .35:
                k = rng.randrange(3)
                if k == 0:
                    hp.setref(reachable=hp.Nothing)
                    base = {}
                elif k == 1:
                    s = rng.sample(list(absolute().values()), 3)
                    x = hp.idset(s)
                    hp.setref(reachable=x)
                    base = ids(s)
                else:
                    hp.relheap = hp.Nothing
                    base = {}
                log.append("reference %d objects" % len(base))
            elif r < .65:
                for i in range(rng.choice([1, 3, 20])):
                    n += 1
                    g.add()
                    o = g.objs[-1]
                    extra.append(o)
                log.append("add")
            elif r < .75 and extra:
                for i in range(rng.choice([1, 5])):
                    if extra:
                        extra.pop(rng.randrange(len(extra)))
                log.append("remove")
                gc.collect()
            elif r < .8:
                s = rng.sample(list(absolute().values()), 2) + [[n]]
                gcobjs = ids(s) if rng.random() < .7 else {}
                hp.gcobjs = hp.idset(list(gcobjs.values())) if gcobjs else hp.Nothing
                log.append("gcobjs %d" % len(gcobjs))
            else:
                def chk():
                    a = absolute()
                    got = ids(hp.heap().nodes)
                    a.update(gcobjs)
                    want = {i: o for i, o in a.items() if i not in (base or {})}
                    w.event("relative", len(want))
                    w.event("hidden-old", len(a) - len(want))
                    return compare("relheap", want, got)
                settle()
                e.settled(chk)
                # the objects made by the program are what is shown
                got = ids(hp.heap().nodes)
                for o in extra:
                    if (id(o) in got) != (id(o) not in (base or {})):
                        w.violate("relheap:object", "%s is %s\n%s" % (describe(o), "old but shown" if id(o) in got else "new but not shown", log))
                        return
                    w.event("tracked")
        # arithmetic of snapshots
        a = hp.View.heap()
        extra.append([n, "last"])
        b = hp.View.heap()
        A, B = ids(a.nodes), ids(b.nodes)
        for name, got, want in (("-", b - a, B.keys() - A.keys()), ("|", a | b, A.keys() | B.keys()), ("&", a & b, A.keys() & B.keys()),
                                ("^", a ^ b, A.keys() ^ B.keys()), ("-r", a - b, A.keys() - B.keys())):
            if {id(x) for x in got.nodes} != set(want):
                w.violate("snapshot" + name, "%s of snapshots: %d objects, not %d" % (name, got.count, len(want)))
                return
            w.event("arith")
        if id(extra[-1]) not in {id(x) for x in (b - a).nodes}:
            w.violate("snapshot-new", "an object made between the snapshots is not in their difference")
            return
        hp.relheap = hp.Nothing
        hp.gcobjs = hp.Nothing
        e.done()
        w.case(sig=("setref", tuple(log)))

    def view_horizon(self, rng):
        """The horizon of a session, over the whole heap."""
        w = self.w
        import guppy
        hp = guppy.hpy()
        v = hp.View
        v.Horizon.news.__code__.co_code
        keep = sys.modules.setdefault("vgh", types.ModuleType("vgh"))
        keep.l = [collections.OrderedDict(x=[i]) for i in range(5)] + [collections.defaultdict(list) for i in range(5)] + [P() for i in range(50)]
        h = v.horizon()
        h.news()
        for r in range(rng.choice([1, 3])):
            keep.l = new = [rng.choice([P, S, L, dict, list, collections.OrderedDict])() for i in range(rng.choice([5, 80]))]
            got = {id(x) for x in h.news().nodes}
            if not all(id(o) in got for o in new):
                w.violate("view-horizon:missing", "%d of %d new objects are not in the news" % (len([o for o in new if id(o) not in got]), len(new)))
                return
            w.event("view-horizon", len(new))
            h2 = v.horizon()
            got = {id(x) for x in h2.news().nodes}
            if any(id(o) in got for o in new):
                w.violate("view-horizon:old", "objects made before the horizon are in its news")
                return
            if rng.random() < .5:
                h = h2
            del h2
        del h
        del new
        keep.l = None
        w.case(sig=("view-horizon",))

    def whole(self, rng):
        """The whole process."""
        w = self.w
        import guppy
        hp = guppy.hpy()
        n = rng.choice([1, 10, 300])
        C = type("W%d" % rng.randrange(10 ** 9), (), {"__module__": "vgw", "__slots__": ("x", "__weakref__")})
        holder = types.ModuleType("vgw")
        sys.modules["vgw"] = holder
        old = [C() for i in range(n)]
        holder.old = old
        hp.heap()
        hp.setref(reachable=None)
        base = {id(x) for x in hp.relheap.nodes}
        if not all(id(o) in base for o in old):
            w.violate("setref:contents", "an object held by a module is not in the reference point")
            return
        local = [C() for i in range(n)]
        holder.new = new = [C() for i in range(n)]
        dropped = rng.sample(range(n), n // 2)
        for i in sorted(dropped, reverse=True):
            del old[i]
        h = hp.heap()
        got = {id(x): type(x) for x in h.nodes}
        if any(i in base for i in got):
            w.violate("whole:old", "%d objects that existed before are shown" % len([i for i in got if i in base]))
            return
        for o in new + local:
            if id(o) not in got:
                w.violate("whole:new", "an object made after the reference point is not shown")
                return
        k = (h & hp.Type(C)).count
        if k != len(new) + len(local):
            w.violate("whole:count", "%d new instances, the heap shows %d" % (len(new) + len(local), k))
            return
        w.event("whole", len(got))
        other = guppy.hpy()
        if (other.heap() & hp.Type(C)).count != len(new) + len(local) + len(old):
            w.violate("whole:other-session", "a reference point of another session hides objects")
            return
        hp.setref(reachable=hp.Nothing)
        if (hp.heap() & hp.Type(C)).count != len(new) + len(local) + len(old):
            w.violate("whole:cleared", "after clearing the reference point, %d of %d instances are shown" % ((hp.heap() & hp.Type(C)).count, len(new) + len(local) + len(old)))
            return
        hp.setref()
        if (hp.heap() & hp.Type(C)).count:
            w.violate("whole:reset", "after setting the reference point again, old instances are shown")
            return
        sys.modules.pop("vgw")
        w.case(sig=("whole", n))

    def unreachable(self, rng):
        """Data of objects that nothing reachable refers to."""
        import ctypes
        import guppy
        w = self.w
        inc, dec = ctypes.pythonapi.Py_IncRef, ctypes.pythonapi.Py_DecRef
        inc.argtypes = dec.argtypes = [ctypes.py_object]
        hp = guppy.hpy()
        C = type("U%d" % rng.randrange(10 ** 9), (), {"__module__": "vgu"})
        name = "vgu." + C.__name__
        leaked = []              # addresses only

        def leak(n):
            for i in range(n):
                o = C()
                inc(o)
                leaked.append(id(o))

        def release(n):
            for i in range(min(n, len(leaked))):
                o = ctypes.cast(leaked.pop(), ctypes.py_object).value
                dec(o)

        def count(st):
            return sum(r.count for r in st.get_rows() if r.name == name)

        leak(rng.choice([3, 10]))
        keep = [C() for i in range(4)]       # reachable: not counted
        k = count(hp.heapu())
        if k != len(leaked):
            w.violate("heapu:count", "%d unreachable objects, heapu shows %d" % (len(leaked), k))
            return
        w.event("heapu", k)
        base = 0
        for i in range(rng.choice([1, 3])):
            if rng.random() < .6 or not i:
                hp.setref()
                base = len(leaked)
            r = rng.random()
            if r < .5:
                leak(rng.choice([1, 5]))
            elif r < .8:
                release(rng.choice([1, 2]))
            k = count(hp.heapu())
            if k != len(leaked) - base:
                w.violate("heapu:relative", "%d unreachable objects, %d at the reference point, heapu shows a difference of %d" % (len(leaked), base, k))
                return
            a = count(hp.heapu(abs=True))
            if a != len(leaked):
                w.violate("heapu:absolute", "%d unreachable objects, heapu(abs=True) shows %d" % (len(leaked), a))
                return
            w.event("heapu", 2)
        release(len(leaked))
        w.case(sig=("heapu",))
        del keep


def run_h07(w):
    rng = w.rng
    hz = Horizons(w)
    sr = Setref(w)
    specialised(w)
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        r = i % 25
        if r == 3:
            sr.whole(rng)
        elif r in (5, 15):
            sr.view_horizon(rng)
        elif r == 7:
            sr.unreachable(rng)
        elif r % 2:
            hz.one(rng)
        else:
            sr.rooted(rng)


# ---------------------------------------------------------------- H08: the observer

BY = ("byclodo", "byid", "bymodule", "byrcs", "bysize", "bytype", "byunity", "byvia")


def queries(hp, rng):
    """name, function of the set: the queries that the observer tests run."""
    def pr(x):
        return str(x)

    Q = [("by", lambda X: getattr(X, rng.choice(BY))),
         ("by+str", lambda X: str(getattr(X, rng.choice(BY)))),
         ("byid+str", lambda X: str(X.byid)),
         ("referrers", lambda X: X.referrers),
         ("referrers+str", lambda X: str(X.referrers)),
         ("referents", lambda X: X.referents),
         ("referents+str", lambda X: str(X.referents.byid)),
         ("shpaths", lambda X: X.shpaths),
         ("shpaths+str", lambda X: str(X.shpaths)),
         ("pathsin", lambda X: str(X.pathsin)),
         ("pathsout", lambda X: str(X.pathsout)),
         ("rp", lambda X: str(X.rp)),
         ("rp-object", lambda X: X.rp),
         ("dominos", lambda X: X.dominos),
         ("domisize", lambda X: X.domisize),
         ("imdom", lambda X: X.imdom),
         ("parts", lambda X: list(X.parts)),
         ("partition", lambda X: X.partition.get_stat()),
         ("stat", lambda X: X.stat),
         ("stat+str", lambda X: str(X.stat)),
         ("kind", lambda X: X.kind),
         ("kind+str", lambda X: str(X.kind)),
         ("owners", lambda X: X.owners),
         ("size", lambda X: (X.size, X.count, X.indisize)),
         ("heap", lambda X: hp.heap()),
         ("heap&", lambda X: hp.heap() & X),
         ("heap+str", lambda X: str(hp.heap())),
         ("heap.more", lambda X: str(hp.heap().more)),
         ("heap.by", lambda X: getattr(hp.heap(), rng.choice(BY))[0]),
         ("heapu", lambda X: str(hp.heapu())),
         ("theone", lambda X: [e.theone for e in list(X.byid.parts)[:2]]),
         ("algebra", lambda X: (X | hp.iso(BY)) - X),
         ("type", lambda X: hp.heap() & hp.Type(type(next(iter(X.nodes))))),
         ("rcs", lambda X: X.referrers.byrcs),
         ("rel", lambda X: str(X.byid[0].referrers.byvia)),
         ("horizon", lambda X: hp.View.horizon().news()),
         ("referrers_gc", lambda X: X.referrers_gc),
         ("diff", lambda X: hp.heap() - hp.heap()),
         ("relheap", lambda X: (hp.setrelheap(), hp.heap(), setattr(hp, "relheap", hp.Nothing))[1]),
         ("dump", lambda X: X.stat.dump(io.StringIO())),
         ]
    return Q


def world():
    """State of the process that a query has no business to change."""
    return dict(
        excepthook=sys.excepthook, displayhook=sys.displayhook, stdout=sys.stdout, stderr=sys.stderr, trace=sys.gettrace(), profile=sys.getprofile(),
        path=tuple(sys.path), gcenabled=gc.isenabled(), threshold=gc.get_threshold(), debug=gc.get_debug(), callbacks=tuple(map(id, gc.callbacks)),
        garbage=tuple(map(id, gc.garbage)), limit=sys.getrecursionlimit(), interval=sys.getswitchinterval(), cwd=os.getcwd(), exc=sys.exc_info()[1],
        asyncgen=sys.get_asyncgen_hooks(), meta=tuple(map(id, sys.meta_path)), environ=len(os.environ), rnd=hash(__import__("random").getstate()),
        maxstr=sys.get_int_max_str_digits(), unraisable=sys.unraisablehook, warn=tuple(map(repr, __import__("warnings").filters)))


def content(o):
    """The value of an object as identities, as far as one can tell without running its code."""
    t = type(o)
    r = [id(t)]
    for b in t.__mro__:
        if b is list or b is tuple:
            r.append([id(x) for x in b.__iter__(o)])
        elif b is dict:
            r.append([(id(k), id(v)) for k, v in dict.items(o)])
        elif b is set or b is frozenset:
            r.append(sorted(id(x) for x in b.__iter__(o)))
        elif b is collections.deque:
            r.append([id(x) for x in b.__iter__(o)])
        elif b is str or b is bytes or b is int or b is float:
            r.append(b.__repr__(o))
        elif b is type:
            r.append([(id(k), id(v)) for k, v in type.__dict__["__dict__"].__get__(o).items()])
        elif b is types.FunctionType:
            r.append([id(o.__code__), id(o.__defaults__), id(o.__closure__), o.__name__])
        elif b is types.CellType:
            try:
                r.append(id(o.cell_contents))
            except ValueError:
                pass
        elif b is BaseException:
            r.append([id(o.__cause__), id(o.__context__), id(o.__traceback__), [id(x) for x in o.args]])
        for k, d in b.__dict__.items():
            if type(d) is types.MemberDescriptorType and not k.startswith("__") and b.__flags__ & (1 << 9):
                try:
                    r.append((k, id(d.__get__(o))))
                except AttributeError:
                    r.append((k, None))
        if "__dict__" in b.__dict__ and type(b.__dict__["__dict__"]) is types.GetSetDescriptorType and not isinstance(o, type):
            d = b.__dict__["__dict__"].__get__(o)
            r.append([(id(k), id(v)) for k, v in d.items()])
    return r


def marks(x):
    """The members of a set, by address, in one object."""
    a = array.array("Q", (id(o) for o in x.nodes))
    return a


def fill(buf, x):
    k = 1
    for o in x.nodes:
        if type(o) is not types.FrameType:      # a frame of ours differs from call to call
            buf[k] = id(o)
            k += 1
    buf[0] = k - 1


def filled(buf):
    return buf[1:1 + buf[0]]


def unlike(name, a, b, hpa, hpb=None):
    """a, b as by marks; objects for the message are found in the sets, or the current heap."""
    A, B = set(a), set(b)
    if A == B:
        return None
    have = {id(o): o for x in ((hpa, hpb) if hpb is not None else (hpa.heap(),)) for o in x.nodes}
    miss, extra = [[have.get(i, "gone 0x%x" % i) for i in s] for s in (A - B, B - A)]
    kinds = ["+".join(sorted({tyname(x) for x in s})[:3]) for s in (miss, extra)]
    if os.environ.get("H08DEBUG"):
        import guppy
        for x in extra:
            print(repr(x)[:100], hpa.iso(x).referrers.byid if hpb is None else "", guppy.hpy().iso(x).shpaths, file=sys.stderr)
    return "%s:%s/%s" % (name, kinds[0], kinds[1]), "%s: %d missing: %s; %d too many: %s" % (
        name, len(miss), [describe(x) for x in miss[:5]], len(extra), [(describe(x), [describe(r) for r in gc.get_referrers(x)[:3]]) for x in extra[:5]])


class Observer:
    def __init__(self, w):
        self.w = w
        self.e = Env(w)
        import guppy
        self.guppy = guppy
        self.base = os.path.dirname(guppy.__file__)
        self.n = 0
        # what is seen, kept without making objects
        self.bufs = [[array.array("Q", bytes(8 * n)) for n in (400000, 20000, 20000, 20000)] for i in range(2)]
        # the sessions themselves, warmed up
        self.other = guppy.hpy()
        g = self.e.graph(10)
        for hp in (self.e.hp, self.other):
            for name, q in queries(hp, w.rng):
                q(hp.iso(*g.objs[:3]))
            for b in BY:
                str(getattr(hp.iso(*g.objs), b)), str(getattr(hp.heap(), b))
        self.e.done()

    def module(self, g):
        """A module that the process holds the graph by."""
        m = types.ModuleType("vgo")
        m.root = g.root
        sys.modules["vgo"] = m
        return m

    def undisturbed(self, rng):
        w, e = self.w, self.e
        hp = e.hp if rng.random() < .7 else self.guppy.hpy()
        g = e.graph(rng.choice([3, 10, 30]))
        m = self.module(g)
        objs = list({id(o): o for o in g.objs}.values())
        classes = list({id(type(o)): type(o) for o in objs}.values())
        names = [describe(o) for o in objs]
        Q = queries(hp, rng)
        picks = [[rng.randrange(len(objs)) for j in range(rng.choice([1, 1, 3]))] for i in range(40)]
        plan = [(rng.choice(Q), rng.choice(picks), rng.random() < .3) for i in range(rng.choice([1, 3, 8, 20]))]
        keepall = rng.random() < .3
        dropo = rng.random() < .5
        for o in objs:
            content(o)          # makes the dictionaries that are made on demand
        weak = []
        for o in objs + classes:
            # (code objects are constants of the generator)
            if not (isinstance(o, type) and not (o.__module__.startswith("vg") and o.__module__ != "vgraph")) and type(o) is not types.CodeType:
                try:
                    weak.append((weakref.ref(o), describe(o) + (" " + o.__name__ if isinstance(o, type) else "")))
                except TypeError:
                    pass
        hp.heap()               # any session: the first snapshot loads modules
        o = x = None
        for i in range(3):
            gc.collect()
        before = [sys.getrefcount(o) for o in objs], [content(o) for o in objs], [sys.getrefcount(o) for o in classes]
        state = world()
        mods = set(sys.modules)
        out = sys.stdout
        sys.stdout = sink = io.StringIO()
        kept = []
        X = None
        try:
            for (name, q), p, keep in plan:
                w.beat("observer %s on %s" % (name, [names[i] for i in p]))
                X = hp.iso(*[objs[i] for i in p])
                r = q(X)
                if keep or keepall:
                    kept.append(r)
                if rng.random() < .2:
                    kept.append(X)
                r = None
                w.event("query")
        finally:
            sys.stdout = out
        state2 = world()
        if sink.getvalue():
            w.violate("observer:prints", "a query prints %r\n%s" % (sink.getvalue()[:300], [(a[0], [names[i] for i in p]) for a, p, k in plan]))
            return
        if state != state2:
            w.violate("observer:process:" + ",".join(k for k in state if state[k] != state2[k]), "process state changed: %s" % [(k, state[k], state2[k]) for k in state if state[k] != state2[k]])
            return
        X = r = q = name = None
        kept = None
        for i in range(3):
            gc.collect()
        after = [sys.getrefcount(o) for o in objs], [content(o) for o in objs], [sys.getrefcount(o) for o in classes]
        for j, a, b in zip(itertools.count(), before[0], after[0]):
            if a != b:
                w.violate("observer:refcount", "reference count of %s was %d, is %d after %s" % (names[j], a, b, [(a[0], [names[i] for i in p]) for a, p, k in plan]))
                return
        for j, a, b in zip(itertools.count(), before[1], after[1]):
            if a != b:
                w.violate("observer:value", "%s was %s, is %s after %s" % (names[j], a, b, [a[0] for a, p, k in plan]))
                return
        for j, a, b in zip(itertools.count(), before[2], after[2]):
            # method caches and static types come and go
            if a != b and classes[j].__flags__ & (1 << 9) and classes[j].__module__.startswith("vg"):
                w.violate("observer:class-refcount", "reference count of %s was %d, is %d after %s" % (classes[j], a, b, [a[0] for a, p, k in plan]))
                return
        w.event("undisturbed", len(objs))
        w.event("undisturbed-class", len(classes))
        if self.n % 5 == 0 or dropo:
            # nothing stays alive
            sys.modules.pop("vgo")
            del m.root
            g.objs.clear()
            g = m = objs = classes = o = a = b = before = after = None
            if dropo:
                hp = Q = plan = None
            for i in range(3):
                gc.collect()
            left = [(r(), n) for r, n in weak if r() is not None]
            left = [(o, n) for o, n in left if not n.startswith("module vg")]
            w.event("released", len(weak) - len(left))
            if left:
                # is it the observer?
                o = left[0][0]
                refs = [describe(r) for r in gc.get_referrers(o) if r is not left and not any(r is t for t in left)]
                w.violate("observer:alive", "%d objects of the program are alive after everything was dropped: %s; referrers of the first: %s" % (len(left), [n for o, n in left][:5], refs[:6]))
                return
            del left
        else:
            sys.modules.pop("vgo")
        w.case(sig=("undisturbed", tuple(sorted(a[0] for a, p, k in plan)) if plan else None))

    def check_frames(self, nodes):
        for o in nodes:
            if type(o) is types.FrameType:
                f = o.f_code.co_filename
                if f.startswith(self.base):
                    return "%s in %s" % (o.f_code.co_name, f)

    def hidden(self, rng):
        """Results that the program keeps are not part of what is seen."""
        w, e = self.w, self.e
        hp = e.hp
        hp2 = self.other if rng.random() < .3 else hp
        g = e.graph(rng.choice([3, 10, 30]))
        m = self.module(g)
        objs = [o for o in g.objs]
        Q = queries(hp2, rng)
        Q = [q for q in Q if "str" not in q[0] and q[0] not in ("size", "parts", "theone", "diff", "maprox", "heap.more", "pathsin", "pathsout", "heapu", "rp", "rel", "domisize", "partition", "dump")]
        plan = [(rng.choice(Q), [rng.choice(objs) for j in range(rng.choice([1, 1, 3]))]) for i in range(rng.choice([1, 3, 8]))]
        slots = [None] * 32
        m.slots = slots
        probe = [o for o in rng.sample(objs, min(3, len(objs))) if type(o) not in (int, float, str)]

        def run(keep):
            for i, ((name, q), os_) in enumerate(plan):
                w.beat("hidden %s" % name)
                r = q(hp2.iso(*os_))
                if keep:
                    slots[i] = r
                    w.event("kept")
                    w.event("kept:" + name)
                    r = None

        def see(k):
            gc.collect()
            fill(self.bufs[k][0], hp.heap())
            for i in range(len(probe)):
                fill(self.bufs[k][1 + i], hp.iso(probe[i]).referrers)
            return None

        run(True)
        slots[:] = [None] * 32
        see(0)
        r = None
        for attempt in range(3):
            slots[:] = [None] * 32
            see(0)
            run(True)
            see(1)
            A, B = self.bufs
            r = unlike("hidden:heap", filled(A[0]), filled(B[0]), hp)
            if r is None:
                for i, o in enumerate(probe):
                    r = r or unlike("hidden:referrers:" + tyname(o), filled(A[1 + i]), filled(B[1 + i]), hp)
            if r is None:
                break
        w.event("hidden-snapshot", self.bufs[0][0][0])
        names = [n for (n, q), o in plan]
        if r:
            w.violate(r[0], r[1] + "with results kept of %s" % names)
            return
        refs = [hp.iso(o).referrers for o in probe]
        h = hp.heap()
        f = self.check_frames(h.nodes)
        if f:
            w.violate("hidden:frame", "a frame of the analyser is in the snapshot: %s" % f)
            return
        b = {id(x) for x in h.nodes}
        h = None
        for o, y in zip(probe, refs):
            y = ids(y.nodes)
            for i, x in y.items():
                if i not in b and type(x).__name__ != "RootStateType":
                    w.violate("hidden:referrer-outside:" + tyname(x), "%s, a referrer of %s, is not in the snapshot" % (describe(x), describe(o)))
                    return
                w.event("referrer")
        # a chain that a path shows passes through objects of the program
        for o in probe:
            sp = hp.iso(o).shpaths
            for st in sp.sets:
                for x in st.nodes:
                    if id(x) not in b and type(x).__name__ != "RootStateType" and type(x) is not types.FrameType:
                        w.violate("hidden:path:" + tyname(x), "a path to %s runs through %s, which is not in the snapshot" % (describe(o), describe(x)))
                        return
                    w.event("path-object")
            sp = st = x = None
        slots[:] = []
        sys.modules.pop("vgo")
        w.case(sig=("hidden", tuple(sorted(names))))

    def idle(self, rng):
        """Successive snapshots of a program that does nothing in between."""
        w, e = self.w, self.e
        hp = e.hp
        other = self.other
        g = e.graph(rng.choice([3, 30]))
        m = self.module(g)
        g2 = g.root
        how = rng.choice(["function", "deep", "generator", "class", "exec", "lambda", "thread", "except", "sort", "del", "finalizer", "comprehension", "view"])
        got = []
        w.beat("idle " + how)

        def snaps():
            # nothing is bound between snapshots except slots of lists that exist
            a = [None] * 5
            a[0] = hp.heap()
            a[0] = hp.heap()
            a[1] = hp.heap()
            a[2] = other.heap()
            a[2] = other.heap()
            a[3] = hp.heap()
            a[4] = hp.View.heap()
            got.append(a)

        if how == "function":
            snaps()
        elif how == "deep":
            def deep(n):
                return snaps() if n == 0 else deep(n - 1)
            deep(rng.choice([1, 30, 200]))
        elif how == "generator":
            def gen():
                yield snaps()
            list(gen())
        elif how == "class":
            class C:
                snaps()
        elif how == "exec":
            exec("snaps()", {"snaps": snaps, "__name__": rng.choice(["x", "guppyx", "__main__", None, 5])})
        elif how == "lambda":
            list(map(lambda x: snaps(), [1]))
        elif how == "thread":
            import threading
            t = threading.Thread(target=snaps)
            t.start()
            t.join()
        elif how == "except":
            try:
                raise ValueError(g)
            except ValueError as exc:
                snaps()
        elif how == "sort":
            sorted([1], key=lambda x: snaps())
        elif how in ("del", "finalizer"):
            class D:
                def __del__(self):
                    snaps()
            D()
            D = None
        elif how == "comprehension":
            [snaps() for i in range(1)]
        else:
            snaps()
        f = self.check_frames(got[0][0].nodes)
        sizes = [x.size for x in got[0]]
        sets_ = [marks(x) for x in got[0]]
        for i in range(1, len(sets_)):
            r = unlike("idle:" + ("other-session" if i in (2, 3) else "same"), sets_[i - 1], sets_[i], got[0][i - 1], got[0][i])
            if r:
                w.violate(r[0], "snapshots %d and %d of an idle program (%s): %s" % (i - 1, i, how, r[1]))
                return
        if len(set(sizes)) != 1:
            w.violate("idle:size", "sizes of snapshots of an idle program (%s): %s" % (how, sizes))
            return
        if f:
            w.violate("hidden:frame", "a frame of the analyser is in the snapshot (%s): %s" % (how, f))
            return
        w.event("idle", len(sets_[0]))
        got[0][:] = []
        w.event("idle:" + how)
        sys.modules.pop("vgo")
        w.case(sig=("idle", how, len(g.objs)))

    def frames(self, rng):
        """The calling program's frames: what refers to them, what they dominate."""
        w, e = self.w, self.e
        hp = e.hp
        got = {}

        def inner(q, fr):
            got["frame"] = sys._getframe()
            got["root"] = [x for x in hp.iso(hp.Root).referents.nodes if type(x) is types.FrameType]
            gc.collect()
            gc.collect()
            got["ref"] = list(hp.iso(got["frame"]).referrers.nodes)
            got["dom"] = list(hp.iso(got["frame"]).dominos.nodes)
            got["back"] = list(hp.iso(got["frame"].f_back).referrers.nodes)
            got["rp"] = str(hp.iso(got["frame"]).rp)

        def deep(n, q):
            if n:
                return deep(n - 1, q)
            return inner(q, None)
        q = P()
        deep(rng.choice([0, 3]), q)
        me = got.pop("frame")
        if got["root"] != [me]:
            w.violate("frames:root", "the root refers to frames %s instead of the calling one" % [f.f_code.co_name for f in got["root"]])
            return
        if any(type(x) is types.FrameType for x in got["ref"]):
            w.violate("frames:referrers", "the calling frame is referred to by %s" % [f.f_code.co_name for f in got["ref"] if type(f) is types.FrameType])
            return
        if not any(x is me for x in got["back"]):
            w.violate("frames:back", "the caller's frame is not referred to by the calling one, but by %s" % [describe(x) for x in got["back"]])
            return
        if self.check_frames(got["dom"]):
            w.violate("frames:dominos", "dominated by the calling frame: %s" % self.check_frames(got["dom"]))
            return
        w.event("frames")
        got.clear()
        me = None
        w.case(sig=("frames",))


def run_h08(w):
    rng = w.rng
    ob = Observer(w)
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        ob.n = i
        r = i % 10
        if r in (2, 7):
            ob.idle(rng)
        elif r == 4:
            ob.frames(rng)
        elif r % 2:
            ob.undisturbed(rng)
        else:
            ob.hidden(rng)


# ---------------------------------------------------------------- H02: the root

class Mark:
    __slots__ = "n", "__weakref__"

    def __call__(self, *a, **k):
        return None


class MarkError(Exception):
    pass


# f_locals shows the content of a cell, the path names the cell by it
CELL = re.compile(r"(\.f_locals\['\w+'\])\.cell_contents")


class Root:
    """Objects held by nothing but the state of the interpreter or of a thread."""

    def __init__(self, w):
        self.w = w
        import guppy
        self.hp = guppy.hpy()
        self.hv = self.hp.View.hv
        self.Root = self.hp.Root
        self.n = 0
        self.fork = []
        import ctypes
        api = ctypes.pythonapi
        get = api.PyInterpreterState_GetDict         # (a borrowed reference)
        get.argtypes = [ctypes.c_void_p]
        get.restype = ctypes.c_void_p
        self.interp_dict = lambda i: ctypes.cast(get(i), ctypes.py_object).value
        self.interp_get = api.PyInterpreterState_Get
        self.interp_get.restype = ctypes.c_void_p
        self.thread_dict = api.PyThreadState_GetDict
        self.thread_dict.restype = ctypes.c_void_p
        self.set_async = api.PyThreadState_SetAsyncExc
        self.set_async.argtypes = [ctypes.c_ulong, ctypes.py_object]
        self.ctypes = ctypes
        a = Mark()
        self.audit = (id(a), weakref.ref(a))
        sys.addaudithook(a.__call__)
        b = []
        self.audit_list = None
        self.exit_obj = None
        # the session is used before anything is counted
        self.hp.heap()
        gc.collect()

    # each returns (undo); the mark is not referred to by anything else
    def plants(self, m, rng, T, names):
        import atexit
        import builtins
        import codecs
        import contextvars
        import threading
        k = "vgroot%d_%d" % (self.n, rng.randrange(10 ** 9))
        name = rng.choice([n for n in ["module-table", "module-attribute", "builtins", "sys", "codec-search", "codec-cache", "codec-error", "profile", "trace", "context",
                           "asyncgen-first", "asyncgen-final", "fork-before", "fork-parent", "fork-child", "local", "interp-dict", "stack", "exception", "exc-context",
                           "own-local", "argument", "cell", "generator", "builtin-original", "displayhook", "type-dict", "type-subclass", "future-module", "meta_path", "async-exc",
                           "atexit-none", "submodule", "kwdefaults", "coroutine", "comprehension-frame", "codec-encode-map", "warnings-registry", "path-hooks", "gc-callbacks", "last-exc"] if n not in names])
        u = None
        if name == "module-table":
            sys.modules[k] = m
            def u(): del sys.modules[k]
        elif name == "module-attribute":
            sys.modules[k] = x = types.ModuleType(k)
            x.m = m
            def u(): del sys.modules[k]
            x = None
        elif name == "submodule":
            sys.modules["os.path"].__dict__[k] = m
            def u(): del sys.modules["os.path"].__dict__[k]
        elif name == "builtins":
            setattr(builtins, k, m)
            def u(): delattr(builtins, k)
        elif name == "sys":
            setattr(sys, k, m)
            def u(): delattr(sys, k)
        elif name == "displayhook":
            old = sys.displayhook
            sys.displayhook = m
            def u(): sys.displayhook = old
        elif name == "last-exc":
            sys.last_exc = m
            def u(): del sys.last_exc
        elif name == "meta_path":
            sys.path_importer_cache[k] = m
            def u(): del sys.path_importer_cache[k]
        elif name == "path-hooks":
            sys.path_hooks.append(m)
            def u(): sys.path_hooks.pop()
        elif name == "gc-callbacks":
            gc.callbacks.append(m)
            def u(): gc.callbacks.pop()
        elif name == "warnings-registry":
            import warnings
            warnings.filters.append(("ignore", None, UserWarning, m, 0))
            def u(): warnings.filters.pop()
        elif name == "codec-search":
            f = self.search(m)
            codecs.register(f)
            def u(f=f): codecs.unregister(f)
            f = None
            u = self.unregister(u)
        elif name == "codec-cache":
            def f(enc, k=k, m=[m]):
                if enc == k:
                    return m.pop()
            class Info(codecs.CodecInfo):
                pass
            info = codecs.CodecInfo(str.encode, bytes.decode, name=k)
            info.mark = m
            f.__defaults__[1][0] = info
            info = None
            codecs.register(f)
            codecs.lookup(k)
            def u(f=f): codecs.unregister(f)
            f = None
            u = self.unregister(u)
        elif name == "codec-error":
            codecs.register_error("vgroot", m)
            def u(): codecs.register_error("vgroot", len)
        elif name == "codec-encode-map":
            codecs.register_error("vgroot2", self.search(m))
            def u(): codecs.register_error("vgroot2", len)
        elif name == "profile":
            if T is not None:
                T.do(lambda: sys.setprofile(T.arg), m)
                def u(): T.do(lambda: sys.setprofile(None))
            else:
                sys.setprofile(m)
                def u(): sys.setprofile(None)
        elif name == "trace":
            if T is not None:
                T.do(lambda: sys.settrace(T.arg), m)
                def u(): T.do(lambda: sys.settrace(None))
            else:
                sys.settrace(m)
                def u(): sys.settrace(None)
        elif name == "context":
            v = contextvars.ContextVar(k)
            if T is not None:
                T.do(lambda: setattr(T, "v", contextvars.ContextVar("x").set(T.arg)), m)
                def u(): T.do(lambda: T.v.var.reset(T.v))
            else:
                t = v.set(m)
                self.tokens = [v, t]
                def u():
                    v, t = self.tokens
                    v.reset(t)
                    self.tokens = None
                v = t = None
        elif name in ("asyncgen-first", "asyncgen-final"):
            kw = {"firstiter" if name == "asyncgen-first" else "finalizer": m}
            if T is not None:
                T.do(lambda: sys.set_asyncgen_hooks(**T.arg), kw)
                kw = None
                T.arg = None
                def u(): T.do(lambda: sys.set_asyncgen_hooks(None, None))
            else:
                sys.set_asyncgen_hooks(**kw)
                def u(): sys.set_asyncgen_hooks(None, None)
            kw = None
        elif name.startswith("fork"):
            # there is no way to unregister: the holder stays, the mark goes
            h = Mark()
            h.n = m
            os.register_at_fork(**{{"fork-before": "before", "fork-parent": "after_in_parent", "fork-child": "after_in_child"}[name]: h})
            self.fork.append(weakref.ref(h))
            h = None
            def u(): self.fork[-1]().n = None
        elif name == "local":
            if T is not None:
                T.do(lambda: setattr(T.local(), "x", T.arg), m)
                def u(): T.do(lambda: delattr(T.local(), "x"))
            else:
                self.local = threading.local()
                self.local.x = m
                def u(): del self.local
        elif name == "interp-dict":
            self.interp_dict(self.interp_get())[k] = m
            def u(): del self.interp_dict(self.interp_get())[k]
        elif name == "atexit-none":
            if T is None:
                d = self.ctypes.cast(self.thread_dict(), self.ctypes.py_object).value
                d[k] = m
                def u(): del self.ctypes.cast(self.thread_dict(), self.ctypes.py_object).value[k]
                d = None
        elif name == "type-dict":
            Mark.extra = m
            def u(): del Mark.extra
        elif name == "kwdefaults":
            describe.__kwdefaults__ = {"x": m}
            def u(): describe.__kwdefaults__ = None
        elif name == "builtin-original":
            # the original import function is held by the interpreter only
            pass
        if u is not None:
            return name, u
        if T is not None:
            kind = rng.choice(["exception", "argument", "cell", "generator", "own-local", "exc-context", "deep", "coroutine", "async-exc"])
            if kind == "async-exc":
                e = type("MarkErr", (MarkError,), {"m": m})
                T.do(lambda: None, None, async_exc=(self, e))
                e = None
                return "thread:async-exc", lambda: T.do(lambda: None)
            T.do(kind, m)
            return "thread:" + kind, lambda: T.do(lambda: None)
        return None, None

    def search(self, m):
        def search(name, *a, m=m):
            return None
        return search

    def unregister(self, u):
        return u

    def threads(self, n):
        import threading
        root = self

        class Actor:
            """A thread that holds what it is told to, in a way it is told, until the next order."""

            def __init__(self):
                self.go = threading.Semaphore(0)
                self.done = threading.Semaphore(0)
                self.order = self.arg = self.v = None
                self.loc = threading.local()
                self.caught = 0
                self.t = threading.Thread(target=self.run, daemon=True)
                self.t.start()
                self.done.acquire()

            def local(self):
                return self.loc

            def do(self, order, arg=None, async_exc=None):
                """Carry out an order; the argument is held by the thread alone."""
                self.order = order
                self.arg = arg
                arg = None
                self.go.release()
                self.done.acquire()
                self.order = None
                self.arg = None
                if async_exc:
                    # The thread is blocked: the exception stays pending
                    r = async_exc[0].set_async(self.t.ident, async_exc[1])
                    assert r == 1

            def wait(self):
                self.done.release()
                self.go.acquire()

            def run(self):
                while 1:
                    try:
                        self.wait()
                        while 1:
                            o = self.order
                            if o is None:
                                return
                            if callable(o):
                                o()
                                o = None
                                self.wait()
                            else:
                                getattr(self, "hold_" + o.replace("-", "_"))()
                    except MarkError:
                        o = None
                        self.caught += 1
                        # the order that came with it
                        self.order = self.arg = None

            def take(self):
                a = self.arg
                self.arg = None
                return a

            def hold_own_local(self):
                mine = self.take()
                self.wait()

            def hold_argument(self):
                self.h2(self.take())

            def h2(self, x, *y):
                self.wait()

            def hold_deep(self, n=20, x=None):
                x = x or self.take()
                if n:
                    self.hold_deep2(n, x)

            def hold_deep2(self, n, x):
                if n:
                    def inner(y, n=n - 1):
                        self.hold_deep2(n, y)
                    inner(x)
                else:
                    self.wait()

            def hold_cell(self):
                x = self.take()

                def f():
                    self.wait()
                    return x
                f()

            def hold_exception(self):
                try:
                    raise MarkError(self.take())
                except MarkError:
                    self.wait()

            def hold_exc_context(self):
                try:
                    try:
                        raise MarkError(self.take())
                    except MarkError:
                        raise KeyError
                except KeyError:
                    self.wait()

            def hold_generator(self):
                def g(x):
                    self.wait()
                    yield x
                for i in g(self.take()):
                    pass

            def hold_coroutine(self):
                async def g(x):
                    self.wait()
                    return x
                try:
                    g(self.take()).send(None)
                except StopIteration:
                    pass

            def stop(self):
                self.order = None
                self.go.release()
                self.t.join()
        return [Actor() for i in range(n)]

    def one(self, rng):
        w, hp = self.w, self.hp
        self.n += 1
        actors = self.threads(rng.choice([0, 1, 1, 2, 5]))
        subs = []
        if rng.random() < .1:
            import _xxsubinterpreters
            subs = [_xxsubinterpreters.create() for i in range(rng.choice([1, 2]))]
            w.event("subinterpreters", len(subs))
        marks_ = []
        undos = []
        used = []
        free = list(actors)
        names = set()
        for i in range(rng.choice([1, 3, 6, 10])):
            T = rng.choice(actors) if actors and rng.random() < .5 else None
            m = Mark()
            m.n = i
            if T is not None and T in used:
                T = None
            name, u = self.plants(m, rng, T, names)
            if name is None:
                m = u = None
                continue
            if name.startswith("asyncgen"):
                names |= {"asyncgen-first", "asyncgen-final"}
            if T is not None:
                used.append(T)
                w.event("in-thread")
            names.add(name)
            undos.append(u)
            marks_.append((name, id(m), weakref.ref(m)))
            m = u = None
        T = m = u = None
        w.beat("root: %s" % [n for n, i, r in marks_])
        bad = None
        try:
            if rng.random() < .3:
                def raiser():
                    m = Mark()
                    e = MarkError(m)
                    marks_.append(("own-exception", id(m), weakref.ref(m)))
                    return e
                try:
                    raise raiser()
                except MarkError:
                    if rng.random() < .5:
                        bad = self.look(rng, marks_, actors)
                    else:
                        # handled here; another one is handled by the generator in which the snapshot is taken
                        def gen():
                            try:
                                raise raiser()
                            except MarkError:
                                yield self.look(rng, marks_, actors)
                        it = gen()
                        bad = next(it)
                        del it
                marks_.pop()
            else:
                bad = self.look(rng, marks_, actors)
        finally:
            for u in reversed(undos):
                try:
                    u()
                except MarkError:
                    pass
            for T in actors:
                T.stop()
            T = None
            for x in subs:
                _xxsubinterpreters.destroy(x)
        if bad:
            w.violate(*bad)
        w.case(sig=tuple(sorted(n for n, i, r in marks_)))

    def look(self, rng, marks_, actors):
        w, hp, hv = self.w, self.hp, self.hv
        Root = self.Root
        trace, profile = sys.gettrace(), sys.getprofile()
        trace = profile = None
        h = hp.heap()
        seen = {id(x) for x in h.nodes}
        marks_ = [(n, i, r) for n, i, r in marks_ if r() is not None or self.dead(n)]
        for name, i, r in marks_ + [("audit", *self.audit)]:
            if i not in seen:
                return ("root:" + name, "an object held by %s is not in the snapshot" % name)
            w.event("found")
            w.event("found:" + name)
        # naming of every direct reference
        listed = dir(Root)
        lset = set(listed)
        if len(lset) != len(listed):
            return ("root:dir-twice", "listed twice: %s" % [x for x in lset if listed.count(x) > 1])
        named = set()
        direct = hv.relimg([Root])
        me = sys._getframe()
        for x in direct:
            rel = hv.relate(Root, x)
            ns = rel[1]
            if type(x) is types.FrameType and (x is me or x.f_code.co_filename.endswith("threading.py") and not ns):
                ns = ns or ()
            elif not ns:
                return ("root:unnamed:" + tyname(x), "the root refers to %s, which has no name: %s" % (describe(x), rel))
            for n in ns:
                if n not in lset:
                    return ("root:unlisted", "%s names %s, but is not listed" % (n, describe(x)))
                y = getattr(Root, n)
                if y is not x:
                    return ("root:name", "%s names %s, but yields %s" % (n, describe(x), describe(y)))
                named.add(n)
                w.event("named")
                w.event("named:" + re.sub(r"t\d+_|f\d+$", "", n))
            if len(set(ns)) != len(ns):
                return ("root:named-twice:" + tyname(x), "%s is named %s" % (describe(x), ns))
        direct = {id(x) for x in direct}
        for n in listed:
            x = getattr(Root, n)
            w.event("listed")
            if x is None:
                continue
            if type(x) is types.FrameType:
                if not re.fullmatch(r"i0_t\d+_f\d+", n):
                    return ("root:frame-name", "%s is a frame" % n)
                continue
            if n.endswith("modules_by_index"):
                continue
            if id(x) not in direct:
                return ("root:attribute:" + re.sub(r"t\d+", "", n), "%s yields %s, to which the root does not refer" % (n, describe(x)))
        # frames by number, from the bottom
        for T in [None] + actors:
            ident = T.t.ident if T else __import__("threading").get_ident()
            f = sys._current_frames()[ident]
            chain = []
            while f is not None:
                chain.append(f)
                f = f.f_back
            chain.reverse()
            if T:
                for k, f in enumerate(chain):
                    n = "i0_t%d_f%d" % (ident, k)
                    if getattr(Root, n) is not f:
                        return ("root:frame", "%s yields %s, not %s" % (n, describe(getattr(Root, n)), describe(f)))
                    w.event("frame")
                if id(chain[-1]) not in direct:
                    return ("root:frame-missing", "the frame of another thread is not referred to")
                for f in chain:
                    if id(f) not in seen:
                        return ("root:frame-unseen", "a frame of another thread is not in the snapshot")
            else:
                k = len(chain) - 1
                if getattr(Root, "i0_t%d_f%d" % (ident, k)) is not me:
                    return ("root:own-frame", "the calling frame is not attribute f%d" % k)
            try:
                getattr(Root, "i0_t%d_f%d" % (ident, len(chain)))
                return ("root:frame-beyond", "there is a frame above the last")
            except AttributeError:
                pass
            chain = f = None
        # no object of another name
        for n in ("i0_nothing", "i7_modules", "i0_t1_dict", "i0_t%d_nothing" % __import__("threading").get_ident(), "x", "", "i0_", "i-1_modules", "i0_modules_", "i0_modulesx"):
            try:
                x = getattr(Root, n)
                return ("root:bogus", "%r yields %s" % (n, describe(x)))
            except AttributeError:
                pass
            w.event("bogus")
        # paths lead there
        for name, i, r in rng.sample(marks_, min(3, len(marks_))):
            o = r()
            if o is None:
                continue
            sp = hp.iso(o).shpaths
            k = 0
            for p in sp:
                t = str(p)
                k += 1
                if k > 20:
                    break
                if "??" in t or "->" in t:
                    w.event("path-opaque")
                    continue
                try:
                    x = eval(CELL.sub(r"\1", t.replace("%s", "Root", 1)), {"Root": Root})
                except Exception as exc:
                    if "..." in t or "<" in t or "f_locals [" in t or "keys()" in t or "list(" in t:
                        w.event("path-opaque")
                        continue
                    return ("root:path", "%s, a path to an object held by %s, raises %r" % (t, name, exc))
                if x is not o:
                    if "list(" in t:
                        continue
                    return ("root:path", "%s, a path to an object held by %s, yields %s" % (t, name, describe(x)))
                w.event("path")
            if not k:
                return ("root:no-path", "no path to an object held by %s" % name)
            o = x = sp = p = None
        return None

    def dead(self, name):
        raise AssertionError("the mark held by %s is gone" % name)


def run_h02(w):
    rng = w.rng
    r = Root(w)
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        r.one(rng)


# ---------------------------------------------------------------- H09: threads

class Churn:
    """Threads that do nothing sensible, all the time."""

    def __init__(self, rng, n, kinds=None):
        import threading
        self.stop = False
        self.bad = None
        self.count = 0
        self.kinds = [rng.choice(kinds or ["alloc", "cycles", "threads", "classes", "frames", "strings", "gc", "dicts", "weak", "locals", "modules", "generators"]) for i in range(n)]
        self.ts = [threading.Thread(target=self.run, args=(k,), daemon=True) for k in self.kinds]
        for t in self.ts:
            t.start()

    def run(self, kind):
        import threading
        import time
        f = getattr(self, kind)
        n = 0
        loc = threading.local()
        while not self.stop:
            f(n, loc)
            n += 1
            self.count += 1
            if n % 7 == 0:
                time.sleep(.0005)

    def alloc(self, n, loc):
        l = [[i, (i,)] for i in range(200)]
        del l

    def cycles(self, n, loc):
        for i in range(50):
            a = P()
            a.a = [a, {"x": a}]

    def threads(self, n, loc):
        import threading
        ts = [threading.Thread(target=lambda: [P() for i in range(20)]) for i in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def classes(self, n, loc):
        for i in range(5):
            C = type("Churned", (rng_base(i),), {"x": i})
            o = C()
            o.me = o
            C.last = o

    def frames(self, n, loc):
        def f(k, x):
            y = [x]
            return f(k - 1, y) if k else y
        f(50, n)

    def strings(self, n, loc):
        loc.x = "".join(str(i) for i in range(100))
        sys.intern("churn%d" % (n % 1000))

    def gc(self, n, loc):
        import time
        gc.collect(n % 3)
        time.sleep(.01)

    def dicts(self, n, loc):
        d = loc.__dict__
        for i in range(100):
            d["k%d" % i] = [i]
        for i in range(100):
            del d["k%d" % i]

    def weak(self, n, loc):
        l = [P() for i in range(20)]
        r = [weakref.ref(x, lambda r: l.__len__()) for x in l]
        k = weakref.WeakKeyDictionary((x, 1) for x in l)
        l[:] = []

    def locals(self, n, loc):
        a, b, c = P(), [P()], {1: P()}
        f = sys._getframe()
        f.f_locals
        f = None

    def modules(self, n, loc):
        m = types.ModuleType("churn%d" % (n % 10))
        m.x = P()
        sys.modules[m.__name__] = m
        del sys.modules[m.__name__]

    def generators(self, n, loc):
        def g(x):
            while 1:
                x = yield [x]
        l = [g(i) for i in range(20)]
        for x in l:
            next(x)
            x.send(l)

    def end(self):
        self.stop = True
        for t in self.ts:
            t.join()


def rng_base(i):
    return (object, P, list, dict, Exception)[i % 5]


class Threads:
    HELD = ("own-local", "argument", "cell", "deep", "generator", "coroutine", "exception", "exc-context")

    def __init__(self, w):
        self.w = w
        import guppy
        from vgraph import seal_modules
        seal_modules()
        self.guppy = guppy
        self.hp = guppy.hpy()
        self.hp.heap()

    def blocked(self, rng, secs):
        """One querying thread, threads that hold, threads that churn."""
        import time
        w = self.w
        hp = self.hp if rng.random() < .5 else self.guppy.hpy()
        hp.heap()
        # the newest thread is one that holds, or one that churns
        newest = rng.random() < .5
        churn = Churn(rng, rng.choice([0, 1, 2, 4])) if newest else None
        actors = Root.threads(None, rng.choice([1, 2, 8]))
        marks_ = []
        for a in actors:
            k = rng.choice(self.HELD)
            m = Mark()
            marks_.append((k, id(m), weakref.ref(m)))
            a.do(k, m)
            m = None
        if not newest:
            churn = Churn(rng, rng.choice([1, 2, 4]))
        sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, .005]))
        gc.set_threshold(rng.choice([20, 200, 700]))
        w.beat("blocked %s churn %s" % ([k for k, i, r in marks_], churn.kinds))
        t0 = time.monotonic()
        bad = None
        done = 0
        hz = None
        Root_ = hp.Root
        h = x = None
        try:
            while not bad and (time.monotonic() - t0 < secs or not done):
                done += 1
                op = rng.choice(["heap", "heap", "heap", "str", "referrers", "shpaths", "root", "horizon", "by", "domisize", "rp", "relheap"])
                w.beat("blocked %s churn %s: %s" % ([k for k, i, r in marks_], churn.kinds, op))
                if op == "relheap":
                    hp.setrelheap()
                    hp.relheap = hp.Nothing
                h = hp.heap()
                have = {id(x) for x in h.nodes}
                x = None
                for k, i, r in marks_:
                    if i not in have:
                        bad = ("threads:held", "an object that a blocked thread holds by %s is not in the snapshot" % k)
                    w.event("held")
                if op == "str":
                    str(h), str(h.more)
                elif op == "by":
                    p = getattr(h, rng.choice(["bytype", "byclodo", "byrcs", "bysize", "bymodule", "byunity"]))
                    rows = list(p.partition.get_rows())
                    if sum(r.count for r in rows) != h.count:
                        bad = ("threads:partition", "rows of %d objects for a snapshot of %d" % (sum(r.count for r in rows), h.count))
                    rows = p = None
                elif op == "root":
                    for n in dir(Root_):
                        try:
                            getattr(Root_, n)
                        except AttributeError:
                            pass          # a thread or a frame that has ended
                        w.event("root-attribute")
                elif op == "horizon":
                    if hz is None:
                        hz = hp.View.horizon()
                        new = P()
                    elif id(new) not in {id(x) for x in hz.news().nodes}:
                        bad = ("threads:horizon", "an object made after the horizon is not in its news")
                    elif any(i in {id(x) for x in hz.news().nodes} for k, i, r in marks_):
                        bad = ("threads:horizon-old", "an object held since before the horizon is in its news")
                    x = None
                elif op in ("referrers", "shpaths", "rp", "domisize") and marks_:
                    k, i, r = rng.choice(marks_)
                    S = hp.iso(r())
                    if op == "referrers":
                        if not S.referrers.count:
                            bad = ("threads:referrers", "no referrers of an object that a blocked thread holds by %s" % k)
                    elif op == "shpaths":
                        s = str(S.shpaths)
                        if "Root" not in s:
                            bad = ("threads:shpaths", "no path to an object that a blocked thread holds by %s: %r" % (k, s[:200]))
                    elif op == "rp":
                        str(S.rp)
                    else:
                        S.domisize
                    S = None
                h = None
                w.event("op:" + op)
        finally:
            sys.setswitchinterval(.005)
            gc.set_threshold(700, 10, 10)
            churn.end()
            for a in actors:
                a.do(lambda: None)
                a.stop()
            hz = None
        w.event("churned", churn.count)
        if bad:
            w.violate(*bad)
        w.case(sig=("blocked", tuple(k for k, i, r in marks_), tuple(churn.kinds)))

    OPS = (("referrers", lambda hp, X, g: own(g, X.referrers.nodes)),
           ("referents", lambda hp, X, g: own(g, X.referents.nodes)),
           ("dominos", lambda hp, X, g: own(g, X.dominos.nodes)),
           ("imdom", lambda hp, X, g: own(g, X.imdom.nodes)),
           ("domisize", lambda hp, X, g: (X.size, X.indisize, None if any(isinstance(o, type) for o in X.dominos.nodes) else X.domisize)),
           ("paths", lambda hp, X, g: str(X.shpaths)),
           ("npaths", lambda hp, X, g: X.shpaths.numpaths),
           ("bytype", lambda hp, X, g: str(hp.idset(list(g.objs)).bytype)),
           ("byclodo", lambda hp, X, g: str(hp.idset(list(g.objs)).byclodo)),
           ("byrcs", lambda hp, X, g: str(hp.idset(list(g.objs)).byrcs)),
           ("bysize", lambda hp, X, g: str(hp.idset(list(g.objs)).bysize)),
           ("byvia", lambda hp, X, g: str(hp.idset(list(g.objs)).byvia)),
           ("kind", lambda hp, X, g: str(X.kind)),
           ("rp", lambda hp, X, g: str(X.rp)),
           ("set", lambda hp, X, g: own(g, ((hp.idset(list(g.objs)) - X) | X.referents).nodes)),
           ("parts", lambda hp, X, g: [(p.count, p.size) for p in hp.idset(list(g.objs)).bytype.parts]),
           ("reachable", lambda hp, X, g: own(g, hp.View.hv.reachable(hp.View.immnodeset([g.root]), X.nodes))),
           )

    def parallel(self, rng, secs):
        """Several querying threads, each with a session and a graph of its own."""
        import threading
        import time
        w = self.w
        n = rng.choice([2, 3, 5])
        from vgraph import Graph
        jobs = []
        out = []
        for i in range(n):
            hp = self.guppy.hpy()
            self.gn = getattr(self, "gn", 0) + 1
            g = Graph(rng, rng.choice([5, 15, 40]), "vt%d" % self.gn, exotic=False)
            hp.View.root = g.root
            todo = []
            for k in range(12):
                name, f = rng.choice(self.OPS)
                os_ = [rng.choice(g.objs) for j in range(rng.choice([1, 1, 2]))]
                todo.append((name, f, os_))
            # twice: what is made by the first use
            for name, f, os_ in todo:
                f(hp, hp.iso(*os_), g)
            gc.collect()
            exp = [f(hp, hp.iso(*os_), g) for name, f, os_ in todo]
            gc.collect()
            exp2 = [f(hp, hp.iso(*os_), g) for name, f, os_ in todo]
            todo = [(t, a) for t, a, b in zip(todo, exp, exp2) if a == b]
            jobs.append((hp, g, todo))
        churn = Churn(rng, rng.choice([0, 1, 2]), ["cycles", "alloc", "gc", "threads", "generators"])
        stop = time.monotonic() + secs
        w.beat("parallel %s churn %s" % ([[t[0] for t, a in todo] for hp, g, todo in jobs], churn.kinds))
        start = threading.Barrier(n)
        seeds = [rng.random() for i in range(n)]

        def work(hp, g, todo, seed):
            import random
            rng = random.Random(seed)
            k = 0
            try:
                start.wait()
                while (time.monotonic() < stop or not k) and not out:
                    (name, f, os_), e = rng.choice(todo)
                    r = f(hp, hp.iso(*os_), g)
                    if r != e:
                        # something the first query left behind?
                        r2 = f(hp, hp.iso(*os_), g)
                        out.append(("parallel:" + name, "%s of %s in one of %d threads is %r, alone %r; again %r" % (name, [describe(o) for o in os_], n, short(r), short(e), short(r2))))
                    k += 1
                done.append(k)
            except BaseException as exc:
                import traceback
                out.append(("parallel:exception:%s" % type(exc).__name__, "exception in one of %d threads\n%s" % (n, traceback.format_exc()[-3000:])))

        done = []
        sys.setswitchinterval(rng.choice([1e-6, 1e-6, 1e-5, 1e-4]))
        gc.set_threshold(rng.choice([50, 200, 700]))
        ts = [threading.Thread(target=work, args=(*j, s)) for j, s in zip(jobs, seeds)]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(.005)
            gc.set_threshold(700, 10, 10)
            churn.end()
        w.event("parallel", sum(done))
        w.event("parallel-threads", n)
        for v in out[:3]:
            w.violate(*v)
        w.case(sample="%d threads, %d operations" % (n, sum(done)), sig=("parallel", n, tuple(sorted({t[0] for hp, g, todo in jobs for t, a in todo}))))

    def sessions(self, rng):
        """Sessions that start at the same time."""
        import threading
        w = self.w
        n = rng.choice([2, 4])
        out = []
        start = threading.Barrier(n)

        def work():
            try:
                start.wait()
                m = Mark()
                hp = self.guppy.hpy()
                h = hp.heap()
                if not (h & hp.iso(m)):
                    out.append(("sessions:local", "a local of the calling thread is not in the snapshot of a session that started at the same time as others"))
                if len(str(h)) < 100:
                    out.append(("sessions:str", str(h)))
                str(hp.iso(m).rp)
            except BaseException as exc:
                import traceback
                out.append(("sessions:exception:%s" % type(exc).__name__, "exception in one of %d threads that start a session\n%s" % (n, traceback.format_exc()[-3000:])))
        sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=work) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        sys.setswitchinterval(.005)
        for v in out[:3]:
            w.violate(*v)
        w.event("sessions", n)

    def shared(self, rng, secs):
        """One session in several threads: results are not judged, survival is."""
        import threading
        import time
        w = self.w
        hp = self.guppy.hpy()
        stop = time.monotonic() + secs
        n = rng.choice([2, 4])
        seeds = [rng.random() for i in range(n)]
        count = []

        def work(seed):
            import random
            rng = random.Random(seed)
            k = 0
            while time.monotonic() < stop or not k:
                m = P()
                m.l = [m]
                try:
                    name, q = rng.choice(queries(hp, rng))
                    q(hp.iso(m, m.l))
                except Exception:
                    pass
                k += 1
            count.append(k)
        w.beat("shared session in %d threads" % n)
        sys.setswitchinterval(1e-6)
        gc.set_threshold(100)
        out, sys.stdout = sys.stdout, io.StringIO()
        ts = [threading.Thread(target=work, args=(s,)) for s in seeds]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        sys.stdout = out
        sys.setswitchinterval(.005)
        gc.set_threshold(700, 10, 10)
        w.event("shared", sum(count))

    def sets(self, rng, secs):
        """Set objects that several threads change."""
        import threading
        from guppy import sets
        w = self.w
        n = rng.choice([2, 4])
        ns = sets.mutnodeset()
        bs = sets.mutbitset()
        ng = self.guppy.heapy.heapyc.NodeGraph() if hasattr(self.guppy.heapy, "heapyc") else None
        objs = [[P() for i in range(200)] for j in range(n)]
        out = []
        start = threading.Barrier(n)

        def slow(it):
            for x in it:
                yield x

        def work(j, seed):
            import random
            nonlocal ns, bs
            rng = random.Random(seed)
            mine = objs[j]
            try:
                start.wait()
                keep = set()
                for i in range(300):
                    k = rng.randrange(len(mine))
                    if rng.random() < .6:
                        ns.add(mine[k])
                        keep.add(k)
                    else:
                        ns.discard(mine[k])
                        keep.discard(k)
                    if (mine[k] in ns) != (k in keep):
                        out.append(("sets:member", "an object that only this thread adds and removes is %s" % ("in" if k not in keep else "gone")))
                        return
                    if i % 50 == 0:
                        c = sets.immnodeset(ns)
                        if [x in c for x in mine] != [x in keep for x in range(len(mine))]:
                            out.append(("sets:copy", "a copy has other members of this thread than the set"))
                            return
                        list(c), len(c), hash(c)
                        # a set changes while it is read through an iterator that yields to others
                        try:
                            for x in ns:
                                pass
                        except RuntimeError:
                            pass
                        sets.immbitset(slow(range(50)))
                        sets.mutnodeset(slow(mine))
                final[j] = keep
            except BaseException as exc:
                import traceback
                out.append(("sets:exception:%s" % type(exc).__name__, traceback.format_exc()[-3000:]))
        final = {}
        sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=work, args=(j, rng.random())) for j in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        sys.setswitchinterval(.005)
        if not out:
            want = {id(objs[j][k]) for j in final for k in final[j]}
            got = {id(x) for x in ns}
            if want != got or len(ns) != len(want):
                out.append(("sets:final", "%d members are missing, %d too many, length %d" % (len(want - got), len(got - want), len(ns))))
            w.event("set-ops", 300 * n)
        for v in out[:3]:
            w.violate(*v)
        w.event("sets")


def own(g, x):
    """Those of the graph: classes that others make show as subclasses of object."""
    mine = {id(o) for o in g.objs}
    return sorted(id(o) for o in x if id(o) in mine)


def short(r):
    r = repr(r)
    return r if len(r) < 900 else r[:450] + " ... " + r[-450:]


def run_h09(w):
    rng = w.rng
    t = Threads(w)
    import gc
    secs = 1.5
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        r = (i + w.args["part"]) % 8
        if w.args.get("only"):
            r = int(w.args["only"])
        if r in (0, 3):
            t.blocked(rng, secs)
        elif r in (1, 5, 6):
            t.parallel(rng, secs)
        elif r == 2:
            t.sessions(rng)
        elif r == 4:
            t.shared(rng, 1)
        else:
            t.sets(rng, 1)


def main(w):
    {"H07": run_h07, "H08": run_h08, "H02": run_h02, "H09": run_h09}[w.args["mode"]](w)


if __name__ == "__main__":
    vw.main(main)
