"""Operations whose operands call back: every call back may raise, on request."""
import vops
from vops import Op, Ops


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


class T:
    """Counts the calls, and raises at one of them (or from one on)."""
    n = 0
    at = -1
    once = True
    exc = None
    act = None
    fired = 0

    @classmethod
    def reset(cls, at=-1, once=True, exc=None):
        cls.n = cls.fired = 0
        cls.at = at
        cls.once = once
        cls.exc = exc

    @classmethod
    def tick(cls):
        i = cls.n
        cls.n = i + 1
        if cls.at >= 0 and (i == cls.at or not cls.once and i > cls.at):
            cls.fired += 1
            raise cls.exc
        if cls.act is not None:
            cls.act(i)


class Iter(vops.Iter):
    """Calls back in __iter__ and __next__."""

    def __iter__(self):
        T.tick()
        return It(self.l)


class It:
    def __init__(self, l):
        self.l = l
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        T.tick()
        i = self.i
        if i >= len(self.l):
            raise StopIteration
        self.i = i + 1
        return self.l[i]


class Seq(vops.Iter):
    """The old protocol."""
    __iter__ = None
    del __iter__

    def __init__(self, l):
        self.l = l

    def __getitem__(self, i):
        T.tick()
        return self.l[i]


class Gen(vops.Iter):
    def __iter__(self):
        for x in self.l:
            T.tick()
            yield x
        T.tick()


class LenList(vops.Iter):
    """Lies about its length."""

    def __iter__(self):
        return iter(self.l)

    def __len__(self):
        T.tick()
        return 1000

    def __length_hint__(self):
        T.tick()
        return 1000


class Sized:
    def __init__(self, n):
        self.n = n

    def __sizeof__(self):
        T.tick()
        return self.n


class Kind:
    """A kind that calls back; kinds with the same n are equal."""
    live = 0

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        T.tick()
        return self.n & 1

    def __eq__(self, o):
        T.tick()
        return isinstance(o, Kind) and o.n == self.n

    def __lt__(self, o):
        T.tick()
        return self.n < o.n

    __le__ = __gt__ = __ge__ = __lt__


class Index:
    def __init__(self, n):
        self.n = n

    def __index__(self):
        T.tick()
        return self.n


class SubInt(int):
    def __index__(self):
        T.tick()
        return int(self)

    def __int__(self):
        T.tick()
        return int.__int__(self)

    def __hash__(self):
        T.tick()
        return int.__hash__(self)

    def __eq__(self, o):
        T.tick()
        return int.__eq__(self, o)

    def __lt__(self, o):
        T.tick()
        return int.__lt__(self, o)

    def __gt__(self, o):
        T.tick()
        return int.__gt__(self, o)


class Junk:
    pass


JUNK = (None, 1.5, "x", (), (1,), (1, 2, 3), 1 << 70, -(1 << 70), Junk)


class CbOps(Ops):
    """The catalogue, with operands that call back; some of them are wrong."""

    def __init__(self, rng):
        super().__init__(rng)
        self.sized = [Sized(rng.choice([16, 100, 1 << 20])) for i in range(4)]
        self.bad = [Sized(x) for x in ("x", None, 1.5, -5, 1 << 80)]
        self.kinds = [Kind(i % 4) for i in range(6)]
        self.things += self.sized + self.kinds
        self.addr = {id(o): o for o in self.things + self.bad + self.small}

    def clone(self, o):
        if type(o) in (Iter, Seq, Gen, LenList):
            return type(o)(list(o.l))
        if type(o) is Maker:
            return Maker(o.make)
        return super().clone(o)

    def state(self, o):
        if isinstance(o, vops.Iter):
            return ("iter",)
        if isinstance(o, Index):
            return ("index", o.n)
        if type(o) is Kind:
            return ("kind", o.n)
        if isinstance(o, slice):
            return ("slice",) + tuple(x if x is None else type(x).__name__ for x in (o.start, o.stop, o.step))
        if type(o) is SubInt:
            return ("subint", int.__index__(o))
        return super().state(o)

    def wrap(self, l):
        rng = self.rng
        l = list(l)
        if rng.random() < .2:
            l.insert(rng.randrange(len(l) + 1), rng.choice(JUNK))
        return rng.choice((Iter, Iter, Seq, Gen, LenList))(l)

    def some(self):
        return self.bits()[:self.rng.choice([1, 5, 20, 60])]

    def ints(self):
        l = self.some()
        r = self.rng.random()
        if r < .3:
            l = [SubInt(x) for x in l]
        elif r < .5:
            l.insert(self.rng.randrange(len(l) + 1), Index(5))
        return l

    def other(self):
        return self.wrap(self.ints())

    def seq(self):
        n = self.nodes(self.rng.choice([0, 1, 4, 9]))
        if self.rng.random() < .15:
            return n
        return self.wrap(n)

    def edges(self):
        l = [(self.rng.choice(self.things), self.rng.choice(self.things)) for i in range(self.rng.choice([0, 1, 3, 10]))]
        r = self.rng.random()
        if r < .2:
            l = [list(x) for x in l]
        elif r < .4:
            l = [self.rng.choice((Iter, Gen))(x) for x in l]
        return l

    def ng(self, mapping=None):
        rng = self.rng
        if mapping is None:
            mapping = rng.random() < .2
        if mapping:
            return super().ng(True)
        return self.C.NodeGraph([(rng.choice(self.things), rng.choice(self.things)) for i in range(rng.choice([0, 1, 3, 10, 60]))])

    def op(self):
        rng = self.rng
        r = rng.random()
        f = (self.cb_bits if r < .3 else self.cb_nodes if r < .45 else self.cb_graph if r < .6 else self.cb_cli if r < .9 else self.cb_hv)
        return f()

    def idx(self, i):
        return self.rng.choice((Index, SubInt, int, SubInt, SubInt))(i)

    def cb_bits(self):
        rng, S = self.rng, self.S
        MUT = ("mut", "mut", "mutcpl")
        i = rng.choice([0, 1, -1, 63, 64, 700, 1 << 40, rng.randrange(2000)])
        k = rng.randrange(14)
        if k < 3:
            n, f = rng.choice(self.BIN)
            return Op("bits" + n, [self.bs(), self.other()], f)
        if k < 6:
            n, f = rng.choice((("|=", self.ior), ("&=", self.iand), ("^=", self.ixor), ("-=", self.isub)))
            return Op("bits" + n, [self.bs(MUT), self.other()], f)
        if k == 6:
            return Op("immbitset", [self.other()], lambda a: S.immbitset(a))
        if k == 7:
            return Op("MutBitSet", [self.other()], lambda a: S.MutBitSet(a))
        if k == 8:
            return Op("bits-contains", [self.bs(), self.idx(i)], lambda a, n: n in a)
        if k == 9:
            f = rng.choice((("add", lambda a, n: a.add(n)), ("discard", lambda a, n: a.discard(n)), ("tas", lambda a, n: a.tas(n)), ("tac", lambda a, n: a.tac(n)), ("append", lambda a, n: a.append(n)), ("remove", lambda a, n: a.remove(n))))
            return Op("bits-" + f[0], [self.bs(MUT), self.idx(i)], f[1])
        if k == 10:
            a = self.bs(("imm", "mut"))
            n = len(a)
            sl = slice(self.idx(rng.randrange(-n - 2, n + 2)), rng.choice([None, self.idx(rng.randrange(-n - 2, n + 2))]))
            return Op("bits-slice", [a, sl], lambda a, n: a[n], self.state)
        if k == 11:
            a = self.bs(("imm", "mut"))
            return Op("bits-item", [a, self.idx(rng.choice([0, -1, 5]))], lambda a, n: a[n], self.state)
        if k == 12:
            a = rng.randrange(-100, 100)
            return Op("immbitrange", [self.idx(a), self.idx(a + rng.randrange(300)), self.idx(rng.choice([1, 1, 2, 70]))], lambda a, b, c: S.immbitrange(a, b, c))
        c = rng.choice((("<<", lambda a, b: a << b), ("==", lambda a, b: a == b), ("<=", lambda a, b: a <= b), ("pop", lambda a, b: a.pop(b))))
        return Op("bits" + c[0], [self.bs(("mut", "imm")), self.idx(rng.choice([0, -1, 3]))], c[1])

    def cb_nodes(self):
        rng, S = self.rng, self.S
        k = rng.randrange(10)
        if k < 3:
            n, f = rng.choice(self.BIN)
            return Op("nodes" + n, [self.ns(), self.seq()], f)
        if k < 6:
            n, f = rng.choice((("|=", self.ior), ("&=", self.iand), ("^=", self.ixor), ("-=", self.isub)))
            return Op("nodes" + n, [self.ns(("mut",)), self.seq()], f)
        if k < 8:
            c = rng.choice((S.ImmNodeSet, S.MutNodeSet))
            return Op(c.__name__, [self.seq()], lambda a: c(a))
        if k == 8:
            n, f = rng.choice((("==", lambda a, b: a == b), ("<=", lambda a, b: a <= b), ("contains", lambda a, b: b in a)))
            return Op("nodes" + n, [self.ns(), self.thing()], f)
        return Op("nodes-obj_at", [self.ns(), self.idx(5)], lambda a, n: a.obj_at(n))

    def cb_graph(self):
        rng, C = self.rng, self.C
        k = rng.randrange(9)
        if k == 0:
            return Op("NodeGraph", [self.wrap(self.edges()), rng.random() < .2], lambda e, m: C.NodeGraph(e, m))
        if k in (1, 2):
            return Op("ng-update", [self.ng(), self.wrap(self.edges())], lambda g, e: g.update(e))
        if k == 3:
            return Op("ng-updated", [self.ng(), self.wrap(self.edges())], lambda g, e: g.updated(e))
        if k == 4:
            return Op("ng-add_edges_n1", [self.ng(), self.seq(), self.thing()], lambda g, s, t: g.add_edges_n1(s, t))
        if k == 5:
            return Op("ng-domain_covers", [self.ng(), self.seq()], lambda g, s: g.domain_covers(s))
        if k == 6:
            return Op("ng-domain_restricted", [self.ng(), self.seq()], lambda g, s: g.domain_restricted(s))
        if k == 7:
            return Op("ng-relimg", [self.ng(), self.seq()], lambda g, s: g.relimg(s))
        g = self.ng(False)
        d = list(g.get_domain())
        if not d:
            return Op("ng-list", [g], lambda g: list(g), lambda r: sorted((id(a), id(b)) for a, b in r))

        def setitem(g, s, v):
            g[s] = v
        return Op("ng-setitem", [g, rng.choice(d), self.wrap([self.thing(), self.thing()])], setitem)

    def classify(self):
        """Call backs of a user defined classifier."""
        rng = self.rng
        m = {id(t): rng.choice(self.kinds) for t in self.things}
        form = rng.randrange(4)

        def classify(x):
            T.tick()
            if form == 0:
                return type(x).__name__
            k = m.get(id(x))
            if k is None:
                return None
            if form == 1:
                return k
            return Kind(k.n)
        return classify

    def memoize(self):
        memo = {}

        def memoized(k):
            T.tick()
            return memo.setdefault(k, k)
        return memoized

    def cli(self, hv, depth=0):
        rng = self.rng
        k = rng.choice(("user", "user", "type", "indisize", "rcs", "and", "findex", "dictof") if depth < 2 else ("user", "type"))
        if k == "type":
            return k, hv.cli_type()
        if k == "indisize":
            return k, hv.cli_indisize(self.memo())
        if k == "rcs":
            return k, hv.cli_rcs(self.refgraph(), self.cli(hv, depth + 1)[1], self.memo())
        if k == "and":
            return k, hv.cli_and(tuple(self.cli(hv, depth + 1)[1] for i in range(rng.choice([1, 2, 3]))), self.memo())
        if k == "findex":
            alts = []
            for i in range(rng.choice([1, 3])):
                kk, c = self.cli(hv, 2 + depth)
                alts.append((c, rng.choice(self.kinds if kk == "user" else [int, list, Sized]), rng.choice(["==", "!="])))
            return k, hv.cli_findex(tuple(alts), self.memo())
        if k == "dictof":
            g = self.C.NodeGraph(None, True)
            for t in self.things:
                if type(t) is dict:
                    g.add_edge(t, self.thing())
            return k, hv.cli_dictof(g, self.cli(hv, depth + 1)[1], self.S.ImmNodeSet([self.things[0]]), self.S.ImmNodeSet([self.things[1]]))
        if rng.random() < .5:
            c, kk = hv.cli_type(), type(self.thing())
        else:
            c, kk = hv.cli_none(), None
        return k, hv.cli_user_defined(c, kk, self.classify(), rng.choice([None, self.memoize(), self.memoize()]))

    def cb_cli(self):
        rng = self.rng
        hv = self.hv()
        st0 = rng.getstate()
        T.at = -1
        k, c = self.cli(hv)
        st1 = rng.getstate()

        def again():
            # a classifier with memos of its own
            rng.setstate(st0)
            try:
                return self.cli(hv)[1]
            finally:
                rng.setstate(st1)
        c.__class__
        name = "cli-%s" % k
        r = rng.random()
        h = Maker(again)
        if r < .2:
            return Op(name + "-classify", [h, self.thing()], lambda c, x: c.c.classify(x), self.kindval)
        if r < .55:
            return Op(name + "-partition", [h, self.seq()], lambda c, s: c.c.partition(s), lambda r: sorted(((repr(self.kindval(k)), sorted(self.name(x) for x in v)) for k, v in r.items())))
        if r < .75:
            return Op(name + "-epartition", [h, self.seq()], lambda c, s: c.c.epartition(s), lambda r: len(r))
        if r < .8:
            return Op(name + "-memoized", [h, rng.choice(self.kinds)], lambda c, x: c.c.memoized_kind(x), self.kindval)
        kind = rng.choice(self.kinds + ["list", int, Sized, 16])
        if rng.random() < .5:
            try:
                kind = c.classify(self.thing())
            except (Boom, Halt):
                pass
        if k == "indisize" and rng.random() < .7:
            # sizes that are objects of their own, against kinds whose
            # comparison is a call back
            kind = rng.choice(self.kinds)
            return Op(name + "-select", [h, self.wrap([rng.choice(self.sized + self.things) for i in range(rng.choice([1, 3]))]), kind, rng.choice(["<=", ">", ">=", "<"])], lambda c, s, k, m: c.c.select(s, k, m), lambda r: sorted(map(self.name, r)))
        return Op(name + "-select", [h, self.seq(), kind, rng.choice(["==", "!=", "<=", ">"])], lambda c, s, k, m: c.c.select(s, k, m), lambda r: sorted(map(self.name, r)))

    def name(self, x):
        return str(id(x)) if id(x) in self.addr else repr(self.state(x))

    def kindval(self, x):
        return self.state(x)

    def cb_hv(self):
        rng, C = self.rng, self.C
        hv = self.hv()
        k = rng.randrange(8)
        if k < 3:
            l = [rng.choice(self.sized) for i in range(rng.choice([1, 4, 9]))]
            if rng.random() < .3:
                l.insert(rng.randrange(len(l) + 1), rng.choice(self.bad))
            return Op("hv-indisize_sum", [hv, l if rng.random() < .5 else Iter(l)], lambda h, s: h.indisize_sum(s))
        if k == 3:
            return Op("hv-relimg", [hv, self.seq()], lambda h, s: h.relimg(s), self.own)
        if k == 4:
            s = rng.choice(self.sized + self.bad)
            return Op("cli-indisize-classify", [hv.cli_indisize(self.memo()), s], lambda c, s: c.classify(s))
        if k == 5:
            t = self.things
            return Op("Horizon", [self.seq()], lambda s, H=C.Horizon: H(s), lambda h: self.own(h.news(t)))
        if k == 6:
            return Op("Horizon-news", [C.Horizon(self.nodes()), self.seq()], lambda h, s: h.news(s), self.own)
        return Op("hv-new", [self.root, self.wrap(self.heapdefs)], lambda a, b: C.HeapView(a, tuple(b)), lambda r: None)


class Maker:
    """A classifier; a copy is one with memos of its own."""

    def __init__(self, make):
        self.make = make
        self.c = make()
