"""M02: what is repeated leaves nothing behind. Counts memory blocks, bytes from
malloc, objects of the collector and references, over batches."""
import ctypes
import gc
import io
import os
import sys
import time

import vw
import vops
import vcb
import w_int
from vgraph import Graph


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = MallInfo


class Leaks:
    def __init__(self, w):
        self.w = w
        import guppy
        self.guppy = guppy
        self.T = vcb.T
        self.cats = [vops.Ops(w.rng), vcb.CbOps(w.rng)]
        self.malloc = not w.san
        for c in self.cats:
            for i in range(300):
                op = c.make(i)
                self.call(op)
        op = None
        gc.collect()
        gc.disable()
        gc.freeze()

    def call(self, op):
        try:
            op.call(*op.operands)
        except Exception as e:
            e.__traceback__ = None
            return type(e).__name__
        return None

    def count(self):
        # The interpreter keeps names that were looked up there.
        sys._clear_type_cache()
        gc.collect()
        gc.collect()
        m = libc.mallinfo2() if self.malloc else None
        b = sys.getallocatedblocks()
        return (b, (m.uordblks + m.hblkhd) >> 9 if m else 0, len(gc.get_objects()))

    WHAT = ("memory blocks", "units of 512 bytes from malloc", "objects of the collector")

    def growth(self, f, small, big, what, ctx, per):
        """f(n) repeats something n times; it must not grow by per each time."""
        w = self.w
        t = time.monotonic()
        f(3)
        if time.monotonic() - t > .012:
            small = min(small, 10)
            big = min(big, 60)
        c = self.count()
        f(small)
        d = self.count()
        w.event("batches")
        if all(y - x < per * small for x, y in zip(c, d)):
            return False
        w.event("second-look")
        f(big // 4)
        g = []
        for k in range(4):
            c = self.count()
            f(big)
            d = self.count()
            g.append([y - x for x, y in zip(c, d)])
            if all(x < per * big for x in g[-1]):
                return False
        for i, n in enumerate(self.WHAT):
            x = min(y[i] for y in g)
            if x >= per * big:
                w.violate("leak:%s:%s" % (what, n.split()[0]), "%s: %.2f %s are left behind each time" % (ctx, x / big, n))
                return True
        return False

    # -- operations of the extensions

    def op(self, rng):
        w = self.w
        cat = rng.choice(self.cats)
        seed = rng.getrandbits(40)
        self.T.reset()
        op = cat.make(seed)
        name = op.name
        again = rng.choice([1, 1, 20])
        w.beat("%s seed %d times %d" % (name, seed, again))
        ctx = "%s of %s" % (name, [repr(cat.state(o))[:300] for o in op.operands])
        T = self.T
        T.reset()
        err = self.call(op)
        n = T.n
        at = -1
        if cat is self.cats[1] and n and rng.random() < .6:
            # One of the calls back raises
            at = rng.randrange(n)
            op = cat.make(seed)
            T.reset(at, exc=vcb.Boom)
            err = self.call(op)
            T.reset()
            if err == "Boom":
                w.event("errors-in-callbacks")
                w.event("errors-in:" + name.split("-")[0] + "-" + name.split("-")[-1])
            ctx += ", with an error at call back %d of %d" % (at, n)
        op = None
        if err:
            w.event("errors")
            ctx += ", which raises %s" % err
        if again > 1:
            ctx += ", %d times with the same operands" % again

        def batch(n):
            for j in range(-(-n // again)):
                op = cat.make(seed)
                for k in range(again):
                    if at >= 0:
                        T.reset(at, exc=vcb.Boom)
                    self.call(op)
                    T.reset()
                op = None
        things = cat.things
        refs = [sys.getrefcount(o) for o in things]
        if self.growth(batch, 40, 400, name, ctx, .5):
            return
        r = [sys.getrefcount(o) for o in things]
        if r != refs:
            rs = [r]
            for k in range(3):
                batch(20)
                gc.collect()
                rs.append([sys.getrefcount(o) for o in things])
            d = [i for i, c in enumerate(zip(*rs)) if all(x < y for x, y in zip(c, c[1:])) or all(x > y for x, y in zip(c, c[1:]))]
            if d:
                w.violate("leak:%s:references" % name, "%s: the counts of references to members change each time: %s" % (ctx, [(type(things[i]).__name__, [x[i] for x in rs]) for i in d[:4]]))
        w.event("operations")
        w.event("op:" + name.split("-")[0].rstrip("|&^~=<>!"))
        w.case(sig=(name, seed, again, at), sample=ctx[:300])

    # -- garbage that refers to itself

    def holders(self, rng):
        """Ways to hold an object."""
        from guppy.sets import setsc as S
        from guppy.heapy import heapyc as C
        HD = (S._NyHeapDefs_,)

        def tag(o, c):
            o._hiding_tag_ = c
            return o

        def nx(it):
            next(it)
            return it

        def sub(t):
            return type("Sub", (t,), {})

        def gen(c):
            yield sys._getframe()

        def limit(c):
            h = C.HeapView(None, HD)
            g = gen(c)
            h.limitframe = next(g)
            return [g, h]

        def hv(c):
            h = C.HeapView(c, HD)
            k = rng.randrange(4)
            if k == 0:
                h.relimg([c, h.root, [], {}, S.MutNodeSet([c])])
            elif k == 1:
                h.indisize_sum([c, c])
            elif k == 2:
                h.reachable(S.ImmNodeSet([[[1]]]), S.ImmNodeSet())
            return h

        def used(c, cli):
            try:
                cli.partition([c, 5, {}])
            except (TypeError, ValueError, KeyError):
                pass
            return cli

        def kinds(c, cli):
            return cli.classify(c)
        h = hv([])
        n = rng.randrange(2, 6)
        more = [[] for i in range(n)]
        lam = lambda c: lambda x: c
        H = {"MutNodeSet": lambda c: S.MutNodeSet([c] + more), "ImmNodeSet": lambda c: S.ImmNodeSet([c] + more),
             "MutNodeSet tag": lambda c: tag(S.MutNodeSet(), c), "ImmNodeSet tag": lambda c: S.ImmNodeSet(hiding_tag=c),
             "MutNodeSet sub": lambda c: sub(S.MutNodeSet)([c]), "ImmNodeSet sub": lambda c: sub(S.ImmNodeSet)([c]),
             "MutNodeSet or": lambda c: S.MutNodeSet([c]) | more, "MutNodeSet copy": lambda c: S.MutNodeSet(S.MutNodeSet([c])),
             "MutNodeSet iter": lambda c: iter(S.MutNodeSet([c] + more)), "MutNodeSet iter next": lambda c: nx(iter(S.MutNodeSet([c] + more))),
             "ImmNodeSet iter": lambda c: iter(S.ImmNodeSet([c] + more)), "ImmNodeSet iter next": lambda c: nx(iter(S.ImmNodeSet([c] + more))),
             "NodeGraph source": lambda c: C.NodeGraph([(c, 1)]), "NodeGraph target": lambda c: C.NodeGraph([(1, c)]), "NodeGraph tag": lambda c: tag(C.NodeGraph(), c),
             "NodeGraph sub": lambda c: sub(C.NodeGraph)([(1, c)]), "NodeGraph inverted": lambda c: C.NodeGraph([(c, x) for x in more]).inverted(),
             "NodeGraph iter": lambda c: iter(C.NodeGraph([(c, 1)])), "NodeGraph iter next": lambda c: nx(iter(C.NodeGraph([(c, x) for x in more]))),
             "NodeGraph domain": lambda c: C.NodeGraph([(c, 1)]).get_domain(), "NodeGraph relimg": lambda c: C.NodeGraph([(1, c)]).relimg([1]),
             "HeapView": hv, "HeapView sub": lambda c: sub(C.HeapView)(c, HD), "HeapView tag": lambda c: tag(C.HeapView([], HD), c), "HeapView limit": limit, "HeapView method": lambda c: hv(c).heap,
             "Relation": lambda c: C.Relation(rng.randrange(1, 11), c), "Horizon": None,
             "BitSet sub": lambda c: tag(sub(S.MutBitSet)(), c), "ImmBitSet sub": lambda c: tag(sub(S.ImmBitSet)([3]), c),
             "cli indisize": lambda c: used(c, h.cli_indisize({1: c})), "cli rcs": lambda c: used(c, h.cli_rcs(C.NodeGraph([(c, c)]), h.cli_type(), {})),
             "cli rcs memo": lambda c: h.cli_rcs(C.NodeGraph(), h.cli_type(), {1: c}), "cli and memo": lambda c: used(c, h.cli_and((h.cli_type(),), {1: c})),
             "cli and": lambda c: used(c, h.cli_and((h.cli_user_defined(h.cli_none(), None, lam(c), None),), {})),
             "NodeTuple": lambda c: kinds(c, h.cli_and((h.cli_user_defined(h.cli_none(), None, lam(c), None), h.cli_type()), {})),
             "cli user classify": lambda c: used(c, h.cli_user_defined(h.cli_none(), None, lam(c), None)), "cli user memoized": lambda c: used(c, h.cli_user_defined(h.cli_none(), None, id, lam(c))),
             "cli user kind": lambda c: used(c, h.cli_user_defined(h.cli_none(), c, id, None)), "cli user compare": lambda c: used(c, h.cli_user_defined(h.cli_user_defined(h.cli_none(), None, lam(c), None), None, id, None)),
             "cli findex": lambda c: used(c, h.cli_findex(((h.cli_id({}), c, "=="),), {})) if 0 else h.cli_findex(((h.cli_none(), c, "=="),), {}), "cli findex memo": lambda c: h.cli_findex(((h.cli_none(), None, "=="),), {1: c}),
             "cli inrel": lambda c: used(c, h.cli_inrel(C.NodeGraph([(c, more)]), {}, {})), "cli inrel memo": lambda c: h.cli_inrel(C.NodeGraph(), {1: c}, {}), "cli inrel memorel": lambda c: h.cli_inrel(C.NodeGraph(), {}, {1: c}),
             "cli dictof": lambda c: h.cli_dictof(C.NodeGraph([(c, c)], True), h.cli_type(), 1, 2), "cli dictof notdict": lambda c: used(c, h.cli_dictof(C.NodeGraph(None, True), h.cli_type(), c, 2)), "cli dictof notowned": lambda c: h.cli_dictof(C.NodeGraph(None, True), h.cli_type(), 1, c),
             "cli none": lambda c: used(c, hv(c).cli_none()), "cli type": lambda c: used(c, hv(c).cli_type()), "cli id": lambda c: used(c, hv(c).cli_id()),
             "list": lambda c: [c], "dict": lambda c: {1: c}}
        del H["Horizon"]
        return H

    def cycle(self, rng):
        import weakref
        w = self.w
        H = self.holders(rng)

        class Cell:
            pass
        names = rng.choices(sorted(H), k=rng.choice([1, 1, 2, 3]))
        w.beat("cycle %s" % names)
        c = Cell()
        o = c
        wrs = [weakref.ref(c)]
        for n in names:
            try:
                o = H[n](o)
            except TypeError:
                # not hashable
                o = [o]
            try:
                wrs.append(weakref.ref(o))
            except TypeError:
                pass
        c.o = o
        del c, o
        H = None
        gc.collect()
        if any(r() is not None for r in wrs):
            gc.collect()
            gc.collect()
            if any(r() is not None for r in wrs):
                w.violate("cycle:" + (names[0] if len(names) == 1 else "several"), "garbage is not collected: an object held by %s, which it refers to" % " of ".join(reversed(names)))
        w.event("cycles")
        w.case(sig=("cycle",) + tuple(names), sample="cycle with " + " of ".join(reversed(names)))

    # -- queries of a session

    def query(self, rng):
        w = self.w
        self.n = getattr(self, "n", 0) + 1
        from guppy import sets
        from guppy.heapy import heapyc
        g = Graph(rng, rng.choice([4, 8, 15]), "lk%d" % self.n, nodesets=(sets.mutnodeset, sets.immnodeset), nodegraphs=heapyc.NodeGraph)
        hp = self.guppy.hpy()
        hp.View.root = g.root
        g.sel = g.objs
        Q = w_int.Interrupts.queries(self, rng)
        if rng.random() < .3:
            Q += self.errors()
            Q = Q[-6:]
        for name, q in rng.sample(Q, 3):
            w.beat("query " + name)

            err = []

            def batch(n):
                for i in range(n):
                    try:
                        q(hp, g)
                    except Exception as e:
                        e.__traceback__ = None
                        err[:] = [repr(e)[:200]]
            refs = [sys.getrefcount(o) for o in g.objs]
            if self.growth(batch, 8, 30, "query " + name, "query %s of a session%s" % (name, "; it raises" if err else ""), 1.5):
                return
            gc.collect()
            r = [sys.getrefcount(o) for o in g.objs]
            if r != refs:
                rs = [r]
                for k in range(3):
                    batch(2)
                    gc.collect()
                    gc.collect()
                    rs.append([sys.getrefcount(o) for o in g.objs])
                d = [i for i, c in enumerate(zip(*rs)) if all(x < y for x, y in zip(c, c[1:])) or all(x > y for x, y in zip(c, c[1:]))]
                if d:
                    w.violate("leak:query %s:references" % name, "the counts of references to objects of the heap change each time: %s" % ([(type(g.objs[i]).__name__, [x[i] for x in rs]) for i in d[:4]]))
            w.event("queries")
            if err:
                w.event("errors")
            w.case(sig=(name, self.n), sample="query " + name)

    def errors(self):
        """Queries that fail."""
        return [("bad-kind", lambda hp, g: hp.heap() & 5),
                ("bad-type", lambda hp, g: hp.Type(5)),
                ("bad-attr", lambda hp, g: hp.heap().byfoo),
                ("bad-addr", lambda hp, g: hp.Id(3).theone),
                ("bad-part", lambda hp, g: hp.heap().parts[100000]),
                ("bad-iso", lambda hp, g: hp.idset(5))]

    # -- sessions

    def sessions(self, rng):
        w = self.w
        self.n = getattr(self, "n", 0) + 1
        g = Graph(rng, 8, "ls%d" % self.n)
        g.sel = g.objs
        Q = [x for x in w_int.Interrupts.queries(self, rng) if x[0] not in ("dump",)]
        qs = rng.sample(Q, rng.randrange(3))
        names = [n for n, q in qs]
        w.beat("sessions with %s" % names)

        def batch(n):
            for i in range(n):
                hp = self.guppy.hpy()
                hp.View.root = g.root
                for name, q in qs:
                    try:
                        q(hp, g)
                    except Exception as e:
                        e.__traceback__ = None
        if not self.growth(batch, 4, 40, "session", "sessions with queries %s" % names, 12):
            w.event("sessions")
            w.case(sig=("sessions",) + tuple(names), sample="sessions with %s" % names)

    # -- statistics

    def stats(self, rng):
        w = self.w
        hp = self.guppy.hpy()
        k = rng.choice(["dump", "load", "loadall", "sub", "by", "bad"])
        by = rng.choice(["bytype", "byclodo", "bysize", "byunity", "bymodule"])
        hp.View.root = [[1.5] * 3, {}, "x" * 40]
        st = getattr(hp.heap(), by).stat
        fn = os.path.join(w.scratch, "stat%d" % rng.randrange(3))
        with open(fn, "w") as f:
            st.dump(f)
            st.dump(f)
        bad = open(fn).read()[:rng.randrange(5, 300)]

        def one():
            if k == "dump":
                st.dump(io.StringIO())
            elif k == "load":
                str(hp.load(fn))
            elif k == "loadall":
                l = list(hp.load(fn, use_readline=0) if 0 else hp.loadall(fn))
                str(l[0])
            elif k == "sub":
                str(st - hp.load(fn))
            elif k == "by":
                str(getattr(hp.heap(), by).stat)
            else:
                with open(fn, "w") as f:
                    f.write(bad)
                list(hp.loadall(fn))

        def batch(n):
            for i in range(n):
                try:
                    one()
                except Exception as e:
                    e.__traceback__ = None
        w.beat("stat " + k)
        if not self.growth(batch, 20, 60, "stat " + k, "statistics, %s %s" % (k, by), 1.5):
            w.event("stats")
            w.case(sig=("stat", k, by), sample="stat %s %s" % (k, by))


def main(w):
    rng = w.rng
    m = Leaks(w)
    what = w.args["what"]
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        if what == "op":
            if rng.random() < .75:
                m.op(rng)
            else:
                for j in range(20):
                    m.cycle(rng)
        else:
            x = rng.random()
            (m.query if x < .7 else m.stats if x < .85 else m.sessions)(rng)


if __name__ == "__main__":
    vw.main(main)
