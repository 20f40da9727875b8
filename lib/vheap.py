"""Environment for the heap monitors: a session whose view is rooted at generated graphs."""
import gc

from vgraph import seal_modules, Graph, Refs, closure, describe, HEAPTYPE


class Env:
    def __init__(self, w):
        import guppy
        from guppy import sets
        from guppy.heapy import heapyc
        self.w = w
        self.rng = w.rng
        seal_modules()
        gc.collect()
        gc.disable()
        gc.freeze()
        self.hp = guppy.hpy()
        self.View = self.hp.View
        self.hv = self.View.hv
        self.NodeSet = sets.NodeSet
        self.mutnodeset = sets.mutnodeset
        self.immnodeset = sets.immnodeset
        self.NodeGraph = heapyc.NodeGraph
        self.refs = Refs()
        # Everything that is created lazily by a first use is created now.
        g = self.graph(12)
        self.setroot(g)
        self.hp.heap()
        x = self.hp.iso(g.objs[0])
        str(x.shpaths), str(x.rp), str(x.referrers), str(x.referents), x.dominos, x.imdom, x.domisize
        str(x.byid), str(x.bytype), str(x.byrcs), str(x.byvia)
        self.View.root = self.View.heapyc.RootState
        self.hp.heap()
        self.n = 0

    def graph(self, n=None, **k):
        rng = self.rng
        if n is None:
            n = rng.choice([3, 6, 10, 15, 25, 40, 60])
        self.n = getattr(self, "n", 0) + 1
        return Graph(rng, n, "vg%d" % self.n, nodesets=(self.mutnodeset, self.immnodeset), nodegraphs=self.NodeGraph, **k)

    def setroot(self, g):
        self.View.root = g.root

    def done(self):
        self.View.root = self.View.heapyc.RootState
        if self.n % 20 == 0:
            gc.collect()

    def edges(self, o):
        must, may = self.refs.edges(o)
        if may is None:
            return must
        must = list(must)
        have = {id(x) for x in must}
        for x in self.hv.relimg([o]):
            if id(x) not in have:
                must.append(x)
        return must

    def check_member_edges(self, o):
        got = list(self.hv.relimg([o]))
        return self.refs.check_edges(o, got)

    def settled(self, f):
        """f() returns None or a (key, message); a difference counts only when it
        shows again, so that objects made by the observation do not count."""
        r = f()
        if r is None:
            return
        gc.collect()
        r2 = f()
        if r2 is None:
            self.w.event("unsettled")
            return
        r3 = f()
        if r3 is None:
            self.w.event("unsettled")
            return
        self.w.violate(r3[0], r3[1])


def tyname(x):
    t = type(x)
    if t.__flags__ & HEAPTYPE and t.__module__.startswith("vg"):
        return "instance:" + t.__name__.rstrip("0123456789")
    return t.__name__


def diffmsg(exp, got):
    """exp, got: dict id -> object."""
    miss = [x for i, x in exp.items() if i not in got]
    extra = [x for i, x in got.items() if i not in exp]
    m = ""
    if miss:
        m += "%d missing: %s; " % (len(miss), ", ".join(describe(x) for x in miss[:5]))
    if extra:
        m += "%d too many: %s; " % (len(extra), ", ".join(describe(x) for x in extra[:5]))
    kinds = sorted({tyname(x) for x in miss})[:3], sorted({tyname(x) for x in extra})[:3]
    return m, "%s/%s" % ("+".join(kinds[0]), "+".join(kinds[1]))


def ids(it):
    return {id(x): x for x in it}


def compare(name, exp, got):
    if exp.keys() == got.keys():
        return None
    m, k = diffmsg(exp, got)
    return ("%s:%s" % (name, k), "%s: %s" % (name, m))
