"""A catalogue of operations with their operands: for the monitors that repeat an operation under faults."""
import itertools


class Thing:
    __slots__ = ("a", "b", "__weakref__")

    def __init__(self, a=None, b=None):
        self.a = a
        self.b = b


class Inst:
    def __init__(self, a=None, b=None):
        self.a = a
        self.b = b


class Op:
    """name; make() -> list of operands; call(*operands) -> result; all of an
    operation's state is in the operands."""

    def __init__(self, name, operands, call, norm=None, cmp=None):
        self.name = name
        self.operands = operands
        self.call = call        # does nothing but call the operation
        self.norm = norm        # makes the result comparable
        self.cmp = cmp


class Ops:
    def __init__(self, rng):
        import guppy
        from guppy.sets import setsc
        from guppy.heapy import heapyc
        self.rng = rng
        self.S = setsc
        self.C = heapyc
        self.heapdefs = (setsc._NyHeapDefs_, heapyc._NyHeapDefs_) if hasattr(heapyc, "_NyHeapDefs_") else (setsc._NyHeapDefs_,)
        # objects that stay alive
        self.things = [Thing() for i in range(12)]
        self.things += [[] for i in range(3)]
        self.things += [{} for i in range(3)]
        self.things += [1.5 + i for i in range(3)]
        self.things += [Inst() for i in range(3)]
        for t in self.things[21:24]:
            t.a = rng.choice(self.things)
            t.b = rng.choice(self.things)
        for t in self.things[:12]:
            t.a = rng.choice(self.things)
            t.b = rng.choice(self.things)
        for t in self.things[12:15]:
            t.extend(rng.choice(self.things) for i in range(rng.randrange(5)))
        for i, t in enumerate(self.things[15:18]):
            t.update((k, rng.choice(self.things)) for k in range(rng.randrange(4)))
            t["d"] = self.things[i]
        self.root = list(self.things)
        # Found through the module too: PyThreadState_GetFrame tells no thread
        # without a frame from a frame that can not be allocated.
        global KEEP
        KEEP = self.root
        # A type that a heap view does not know yet comes with every graph.
        # Of types that are no heap objects: not everything is found from them.
        self.small = sm = [[] for i in range(6)] + [{} for i in range(5)] + [set(), (1.5,), iter([[]]), 2.5, [].append, slice([], ())]
        for t in sm[:6]:
            t.extend(rng.choice(sm) for i in range(rng.randrange(5)))
        for i, t in enumerate(sm[6:11]):
            t.update(((k, "k%d" % k, 0.5 + k)[i % 3], rng.choice(sm)) for k in range(rng.randrange(1, 6)))
        self.small_hv = None
        self.addr = {id(o): o for o in self.things + sm}

    # -- state of operands

    def state(self, o):
        S, C = self.S, self.C
        if isinstance(o, S.BitSet):
            if isinstance(o, S.ImmBitSet):
                return ("bits", tuple(o))
            if isinstance(o, S.CplBitSet):
                return ("~bits", tuple(~o))
            x = S.immbitset(o)
            if isinstance(x, S.CplBitSet):
                return ("mut~bits", tuple(~x))
            return ("mutbits", tuple(x))
        if isinstance(o, S.NodeSet):
            return ("mutnodes" if isinstance(o, S.MutNodeSet) else "nodes", tuple(sorted((id(x) if id(x) in self.addr else self.state(x) for x in o), key=repr)))
        if isinstance(o, C.NodeGraph):
            return ("ng", tuple(sorted((id(s), id(t)) for s, t in o if id(s) in self.addr and id(t) in self.addr)), o.is_mapping)
        if isinstance(o, (list, tuple)) and id(o) not in self.addr:
            return (type(o).__name__, tuple(self.state(x) for x in o))
        if isinstance(o, dict) and id(o) not in self.addr:
            return ("dict", tuple(sorted((repr(self.state(k)), repr(self.state(v))) for k, v in o.items())))
        if isinstance(o, float):
            return repr(o)
        if isinstance(o, (int, str, bool, type(None))):
            return o
        if isinstance(o, C.Relation):
            return ("rel", o.kind, o.relator if isinstance(o.relator, (int, str)) else id(o.relator))
        if isinstance(o, Iter):
            return ("iter",)
        if isinstance(o, slice):
            return repr(o)
        return ("id", id(o) if id(o) in self.addr else type(o).__name__)

    def clone(self, o):
        S, C = self.S, self.C
        if id(o) in self.addr or isinstance(o, S.ImmNodeSet):
            return o
        if isinstance(o, S.BitSet):
            if isinstance(o, S.ImmBitSet):
                return S.immbitset(list(o))
            if isinstance(o, S.CplBitSet):
                return ~S.immbitset(list(~o))
            x = S.immbitset(o)
            if isinstance(x, S.CplBitSet):
                y = S.MutBitSet(list(~x))
                y ^= ~S.immbitset()
                return y
            return S.MutBitSet(list(x))
        if isinstance(o, S.MutNodeSet):
            return S.MutNodeSet(list(o))
        if isinstance(o, C.NodeGraph):
            return C.NodeGraph(list(o), o.is_mapping)
        if isinstance(o, Iter):
            return Iter(list(o.l))
        if isinstance(o, C.HeapView):
            return C.HeapView(self.small, self.heapdefs) if o is self.small_hv else self.hv()
        if isinstance(o, list):
            return [self.clone(x) for x in o]
        if type(o) is dict:
            return dict(o)
        return o

    @staticmethod
    def between(before, after, now):
        """now is what an operation from before to after may leave when it ends early."""
        if now == before or now == after:
            return True
        if not (isinstance(before, tuple) and isinstance(after, tuple) and isinstance(now, tuple)):
            return False
        if before[0] == "ng":
            b, a, n = (set(x[1]) for x in (before, after, now))
            return n >= (b & a) and n <= (b | a)
        if before[0] in ("mutnodes", "mutbits") and before[0] == now[0] == after[0]:
            b, a, n = (set(x[1]) for x in (before, after, now))
            return n >= (b & a) and n <= (b | a)
        if before[0] in ("mutbits", "mut~bits"):
            if before[0] != after[0]:
                # The complement is made at the end: what there is in between
                # is neither, but it is a set that works.
                return True
            # with a complement: by a window that covers all bits mentioned
            bits = set(before[1]) | set(after[1]) | set(now[1])
            bits |= {max(bits, default=0) + 1}

            def mem(s, x):
                return (x in s[1]) != (s[0] == "mut~bits")
            return all(mem(now, x) == mem(before, x) for x in bits if mem(before, x) == mem(after, x))
        if before[0] == "dict":
            return set(before[1]) <= set(now[1])
        return False

    # -- operands

    def bits(self):
        rng = self.rng
        r = rng.random()
        if r < .2:
            return []
        n = rng.choice([1, 3, 20, 100, 400])
        if r < .5:
            return [rng.randrange(-50, 2000) for i in range(n)]
        if r < .8:
            base = [rng.randrange(0, 1 << 40) for i in range(4)]
            return [rng.choice(base) + rng.randrange(5000) for i in range(n)]
        return [rng.randrange(-(1 << 50), 1 << 50) for i in range(n)]

    def bs(self, kinds=("imm", "imm", "mut", "mut", "cpl", "mutcpl", "one")):
        S = self.S
        k = self.rng.choice(kinds)
        b = self.bits()
        if k == "one":
            return S.immbit(self.rng.choice([0, -3, 63, 64, 1 << 40]))
        if k == "imm":
            return S.immbitset(b)
        if k == "cpl":
            return ~S.immbitset(b)
        m = S.MutBitSet(b)
        if self.rng.random() < .4:
            for i in self.bits()[:50]:
                m.tas(i)
            m.discard(5)
        if k == "mutcpl":
            m ^= ~S.immbitset()
        if self.rng.random() < .3:
            m.add(7)
        return m

    def nodes(self, n=None):
        rng = self.rng
        return [rng.choice(self.things) for i in range(rng.choice([0, 1, 5, 20]) if n is None else n)]

    def ns(self, kinds=("imm", "mut")):
        k = self.rng.choice(kinds)
        return (self.S.ImmNodeSet if k == "imm" else self.S.MutNodeSet)(self.nodes())

    def edges(self):
        return [(self.rng.choice(self.things), self.rng.choice(self.things)) for i in range(self.rng.choice([0, 1, 3, 10, 60]))]

    def ng(self, mapping=None):
        rng = self.rng
        if mapping is None:
            mapping = rng.random() < .2
        if mapping:
            e = [(s, rng.choice(self.things)) for s in rng.sample(self.things, rng.randrange(len(self.things)))]
        else:
            e = self.edges()
        return self.C.NodeGraph(e, mapping)

    def thing(self):
        return self.rng.choice(self.things)

    def hv(self, fresh_root=True):
        """A new heap view: types that it meets are met for the first time."""
        return self.C.HeapView(self.root, self.heapdefs)

    # -- operations

    def make(self, seed):
        """The operation that seed stands for, with new operands."""
        import random
        self.rng = random.Random(seed)
        return self.op()

    def own(self, it):
        """Of the objects found, those of this catalogue: others come and go."""
        a = self.addr
        return sorted(id(x) for x in it if id(x) in a)

    def op(self):
        rng = self.rng
        B, N, H = [self.bit_op], [self.node_op, self.graph_op], [self.hv_op] * 4 + [self.cli_op] * 4 + [self.etc_op]
        f = rng.choice(dict(sets=B * 3 + N * 2, heap=H).get(self.fam) or B * 3 + N * 2 + H)
        return f()

    fam = None

    def etc_op(self):
        """Horizons and the root."""
        rng, C = self.rng, self.C
        k = rng.randrange(6)
        T = self.things
        if k == 0:
            return Op("Horizon", [self.seq()], lambda s, H=C.Horizon: H(s), lambda h: self.own(h.news(T)))
        if k == 1:
            return Op("Horizon-news", [C.Horizon(list(self.seq())), self.seq()], lambda h, s: h.news(s), lambda r: self.own(r))
        R = C.RootState
        if k == 2:
            return Op("root-dir", [R], lambda r: r.__dir__(), lambda r: sorted(r))
        names = dir(R)
        if k == 3:
            return Op("root-getattr", [R, rng.choice(names)], lambda r, n: getattr(r, n), lambda r: hasattr(r, "f_back") or id(r))
        if k == 4:
            x = getattr(R, rng.choice(names))
            if hasattr(x, "f_back"):
                # The interpreter tells no error from a thread without frames.
                x = self.thing()
            return Op("root-relate", [self.hv(), R], lambda h, r, x=x: h.relate(r, x), lambda r: [[self.state(x) for x in y] for y in r])
        return Op("root-relimg", [self.hv(), [R]], lambda h, s: h.relimg(s), self.own)

    BIN = (("|", lambda a, b: a | b), ("&", lambda a, b: a & b), ("^", lambda a, b: a ^ b), ("-", lambda a, b: a - b))

    @staticmethod
    def ior(a, b):
        a |= b

    @staticmethod
    def iand(a, b):
        a &= b

    @staticmethod
    def ixor(a, b):
        a ^= b

    @staticmethod
    def isub(a, b):
        a -= b

    def other(self):
        """The second operand of an operation on bit sets."""
        r = self.rng.random()
        if r < .75:
            return self.bs()
        if r < .85:
            return self.bits()
        if r < .9:
            return Iter(self.bits())
        return self.bits()

    def bit_op(self):
        rng = self.rng
        S = self.S
        MUT = ("mut", "mut", "mutcpl")
        i = rng.choice([0, 1, -1, 63, 64, 700, 1 << 40, rng.randrange(2000)])
        k = rng.randrange(26)
        if k < 5:
            n, f = rng.choice(self.BIN)
            return Op("bits" + n, [self.bs(), self.other()], f)
        if k < 10:
            n, f = rng.choice((("|=", self.ior), ("&=", self.iand), ("^=", self.ixor), ("-=", self.isub)))
            return Op("bits" + n, [self.bs(MUT), self.other()], f)
        if k == 10:
            return Op("bits~", [self.bs()], lambda a: ~a)
        if k == 11:
            return Op("bits<<", [self.bs(), i % 2000], lambda a, n: a << n)
        if k == 12:
            c = rng.choice((("==", lambda a, b: a == b), ("!=", lambda a, b: a != b), ("<=", lambda a, b: a <= b), ("<", lambda a, b: a < b), (">", lambda a, b: a > b), (">=", lambda a, b: a >= b)))
            return Op("bits" + c[0], [self.bs(), self.bs()], c[1])
        if k == 13:
            return Op("bits-contains", [self.bs(), i], lambda a, n: n in a)
        if k == 14:
            return Op("bits-int", [S.immbitset([b for b in self.bits() if 0 <= b < 100000] + [3])], lambda a: int(a))
        if k == 15:
            return Op("bits-repr", [self.bs()], lambda a: repr(a))
        if k == 16:
            return Op("bits-list", [self.bs(("imm", "mut"))], lambda a: list(a))
        if k == 17:
            a = self.bs(("imm", "mut"))
            n = len(a)
            if n and rng.random() < .5:
                return Op("bits-item", [a, rng.randrange(-n, n)], lambda a, n: a[n])
            sl = slice(rng.randrange(-n - 2, n + 2), rng.choice([None, rng.randrange(-n - 2, n + 2)]))
            return Op("bits-slice", [a, sl], lambda a, n: a[n])
        if k == 18:
            return Op("bits-hash", [self.bs(("imm", "cpl"))], lambda a: hash(a))
        if k == 19:
            return Op("bits-mutcopy", [self.bs()], lambda a: a.mutcopy())
        if k == 20:
            f = rng.choice((("add", lambda a, n: a.add(n)), ("discard", lambda a, n: a.discard(n)), ("tas", lambda a, n: a.tas(n)), ("tac", lambda a, n: a.tac(n))))
            return Op("bits-" + f[0], [self.bs(MUT), i], f[1])
        if k == 21:
            a = self.bs(("mut",))
            if len(a):
                return Op("bits-pop", [a], lambda a: a.pop())
            return Op("bits-clear", [a], lambda a: a.clear())
        if k == 22:
            return Op("immbitset", [self.other()], lambda a: S.immbitset(a))
        if k == 23:
            return Op("MutBitSet", [self.other()], lambda a: S.MutBitSet(a))
        if k == 24:
            a = rng.randrange(-100, 100)
            return Op("immbitrange", [a, a + rng.randrange(3000), rng.choice([1, 1, 2, 70])], lambda a, b, c: S.immbitrange(a, b, c))
        return Op("bits-reduce", [self.bs()], lambda a: a.__reduce__())

    def seq(self):
        n = self.nodes()
        r = self.rng.random()
        if r < .4:
            return self.ns()
        if r < .6:
            return n
        if r < .75:
            return tuple(n)
        if r < .9:
            return Iter(n)
        return {i: x for i, x in enumerate(n)}.values()

    def node_op(self):
        rng = self.rng
        S = self.S
        k = rng.randrange(16)
        if k < 4:
            n, f = rng.choice(self.BIN)
            return Op("nodes" + n, [self.ns(), self.seq()], f)
        if k < 8:
            n, f = rng.choice((("|=", self.ior), ("&=", self.iand), ("^=", self.ixor), ("-=", self.isub)))
            return Op("nodes" + n, [self.ns(("mut",)), self.seq()], f)
        if k == 8:
            c = rng.choice((("==", lambda a, b: a == b), ("!=", lambda a, b: a != b), ("<=", lambda a, b: a <= b), ("<", lambda a, b: a < b)))
            return Op("nodes" + c[0], [self.ns(), self.ns()], c[1])
        if k == 9:
            return Op("nodes-contains", [self.ns(), self.thing()], lambda a, n: n in a)
        if k == 10:
            return Op("nodes-list", [self.ns()], lambda a: list(a), lambda r: {id(x) for x in r})
        if k == 11:
            return Op("nodes-hash", [self.ns(("imm",))], lambda a: hash(a))
        if k == 12:
            f = rng.choice((("add", lambda a, n: a.add(n)), ("discard", lambda a, n: a.discard(n)), ("tas", lambda a, n: a.tas(n)), ("tac", lambda a, n: a.tac(n))))
            return Op("nodes-" + f[0], [self.ns(("mut",)), self.thing()], f[1])
        if k == 13:
            a = self.ns(("mut",))
            if len(a) == 1:
                return Op("nodes-pop", [a], lambda a: a.pop())
            return Op("nodes-clear", [a], lambda a: a.clear())
        if k == 14:
            a = self.ns(("imm",))
            if len(a):
                return Op("nodes-obj_at", [a, id(next(iter(a)))], lambda a, n: a.obj_at(n))
        c = rng.choice((S.ImmNodeSet, S.MutNodeSet))
        return Op(c.__name__, [self.seq()], lambda a: c(a))

    def graph_op(self):
        rng = self.rng
        C = self.C
        k = rng.randrange(19)
        if k == 0:
            e = self.edges()
            return Op("NodeGraph", [rng.choice((e, tuple(e), Iter(e)))], lambda e: C.NodeGraph(e))
        if k in (1, 2):
            return Op("ng-add_edge", [self.ng(), self.thing(), self.thing()], lambda g, s, t: g.add_edge(s, t))
        if k == 3:
            return Op("ng-add_edges_n1", [self.ng(), self.seq(), self.thing()], lambda g, s, t: g.add_edges_n1(s, t))
        if k == 4:
            e = self.edges()
            return Op("ng-update", [self.ng(), rng.choice((self.ng(), e, Iter(e)))], lambda g, e: g.update(e))
        if k == 5:
            e = self.edges()
            return Op("ng-updated", [self.ng(), rng.choice((self.ng(), e, Iter(e)))], lambda g, e: g.updated(e))
        if k == 6:
            return Op("ng-copy", [self.ng()], lambda g: g.copy())
        if k == 7:
            return Op("ng-inverted", [self.ng()], lambda g: g.inverted())
        if k == 8:
            return Op("ng-invert", [self.ng()], lambda g: g.invert())
        if k == 9:
            g = self.ng()
            list(g)
            return Op("ng-as_flat_list", [g], lambda g: g.as_flat_list(), lambda r: sorted(map(id, r)))
        if k == 10:
            return Op("ng-domain_covers", [self.ng(), self.seq()], lambda g, s: g.domain_covers(s))
        if k == 11:
            return Op("ng-domain_restricted", [self.ng(), self.seq()], lambda g, s: g.domain_restricted(s))
        if k == 12:
            return Op("ng-get_domain", [self.ng()], lambda g: g.get_domain())
        if k == 13:
            return Op("ng-get_range", [self.ng()], lambda g: g.get_range())
        if k == 14:
            return Op("ng-relimg", [self.ng(), self.seq()], lambda g, s: g.relimg(s))
        if k == 15:
            g = self.ng()
            d = list(g.get_domain())
            if d:
                return Op("ng-getitem", [g, rng.choice(d)], lambda g, s: g[s], lambda r: sorted(map(id, r)) if type(r) is tuple else id(r))
        if k == 16:
            g = self.ng()
            d = list(g.get_domain())
            if d:
                s = rng.choice(d)
                v = self.thing() if g.is_mapping else tuple(rng.sample(self.things, len(g[s])))

                def setitem(g, s, v):
                    g[s] = v
                return Op("ng-setitem", [g, s, v], setitem)
        if k == 17:
            return Op("ng-clear", [self.ng()], lambda g: g.clear())
        return Op("ng-list", [self.ng()], lambda g: list(g), lambda r: sorted((id(a), id(b)) for a, b in r))

    def target_thing(self):
        return self.thing()

    def hv_op(self):
        """A query of a new heap view; the operands hold the view."""
        rng = self.rng
        C, S = self.C, self.S
        k = rng.randrange(15)
        hv = self.hv
        if rng.random() < .97 and k in (1, 2, 3, 4, 9, 10):
            return self.small_op(k)
        if k == 0:
            root, defs, HV = self.root, self.heapdefs, C.HeapView
            return Op("hv-new", [root, defs], lambda a, b: HV(a, b), lambda r: None)
        if k in (1, 2):
            return Op("hv-heap", [hv()], lambda h: h.heap(), self.own)
        if k == 3:
            return Op("hv-reachable", [hv(), S.ImmNodeSet([self.thing()]), self.ns()], lambda h, a, b: h.reachable(a, b), self.own)
        if k == 4:
            return Op("hv-reachable_x", [hv(), S.ImmNodeSet([self.thing()]), self.ns()], lambda h, a, b: h.reachable_x(a, b), self.own)
        if k == 5:
            return Op("hv-relimg", [hv(), self.seq()], lambda h, s: h.relimg(s), self.own)
        if k == 6:
            s = self.thing()
            return Op("hv-relate", [hv(), s, rng.choice(getattr(s, "__dict__", None) and [s.a, s.b] or [self.thing(), type(s)])], lambda h, s, t: h.relate(s, t), lambda r: [[self.state(x) for x in y] for y in r])
        if k == 7:
            return Op("hv-numedges", [hv(), self.thing(), self.thing()], lambda h, s, t: h.numedges(s, t))
        if k == 8:
            return Op("hv-indisize_sum", [hv(), self.seq()], lambda h, s: h.indisize_sum(s))
        if k == 9:
            return Op("hv-update_referrers", [hv(), C.NodeGraph(), self.ns()], lambda h, g, s: h.update_referrers(g, s))
        if k == 10:
            ng = C.NodeGraph(is_mapping=True)
            return Op("hv-update_dictowners", [hv(), ng], lambda h, g: h.update_dictowners(g), cmp="drop")
        if k == 11:
            return Op("hv-shpathstep", [hv(), C.NodeGraph(), S.ImmNodeSet([self.thing()]), self.ns(("mut",)), C.NodeGraph(), rng.randrange(2)],
                      lambda h, G, U, S_, A, one: h.shpathstep(G, U, S_, A, one), self.own)
        if k == 12:
            cls = type("Reg", (), {"__slots__": ("_hiding_tag_",)})
            if rng.random() < .5:
                return Op("hv-register_hidden_exact_type", [hv(), cls], lambda h, c: h.register_hidden_exact_type(c), cmp="once")
            return Op("hv-register__hiding_tag__type", [hv(), cls], lambda h, c: h.register__hiding_tag__type(c), cmp="once")
        if k == 13:
            return Op("hv-limitframe", [hv()], lambda h: setattr(h, "limitframe", None))
        return Op("hv-static_types", [hv()], lambda h: type in h.static_types)

    def small_op(self, k):
        """Traversals of a few objects."""
        rng, C, S = self.rng, self.C, self.S
        sm = self.small
        v = self.small_hv = C.HeapView(sm, self.heapdefs)
        some = rng.sample(sm, rng.randrange(1, 6))
        if k in (1, 2):
            return Op("hv-heap", [v], lambda h: h.heap(), self.own)
        if k == 3:
            return Op("hv-reachable", [v, S.ImmNodeSet(some), S.MutNodeSet(rng.sample(sm, 2))], lambda h, a, b: h.reachable(a, b), self.own)
        if k == 4:
            return Op("hv-reachable_x", [v, S.ImmNodeSet(some), S.MutNodeSet(rng.sample(sm, 2))], lambda h, a, b: h.reachable_x(a, b), self.own)
        if k == 9:
            return Op("hv-update_referrers", [v, C.NodeGraph(), S.MutNodeSet(some)], lambda h, g, s: h.update_referrers(g, s))
        return Op("hv-update_dictowners", [v, C.NodeGraph(is_mapping=True)], lambda h, g: h.update_dictowners(g), cmp="drop")

    def cli(self, hv, depth=0):
        """A classifier (made now)."""
        k, args = self.cli_args(hv, depth)
        return k, getattr(hv, CLI.get(k, "cli_" + k))(*args)

    def cli_args(self, hv, depth=0):
        """What it is made from."""
        rng = self.rng
        k = rng.choice(("none", "type", "id", "idset", "indisize", "prod", "rcs", "inrel", "and", "findex", "dictof", "user")[:12 if depth < 2 else 4])
        if k in ("none", "type", "id", "idset"):
            return k, ()
        if k in ("indisize", "prod"):
            return k, ({},)
        if k == "rcs":
            return k, (self.refgraph(), self.cli(hv, 2)[1], self.memo())
        if k == "inrel":
            return k, (self.refgraph(), {}, self.memo())
        if k == "and":
            return k, (tuple(self.cli(hv, depth + 1)[1] for i in range(rng.choice([0, 1, 2, 3]))), self.memo())
        if k == "findex":
            alts = []
            for i in range(rng.choice([1, 2, 4, 21])):     # a longer tuple comes from no free list
                kk, c = self.cli(hv, 2)
                if kk == "type":
                    alts.append((c, type(self.thing()), rng.choice(["==", "<=", "!="])))
                elif kk == "id":
                    alts.append((c, self.thing(), rng.choice(["==", "!="])))
                else:
                    alts.append((c, c.classify(self.thing()), rng.choice(["==", "!="])))
            return k, (tuple(alts), self.memo())
        if k == "dictof":
            g = self.C.NodeGraph(None, True)
            for t in self.things:
                if type(t) is dict:
                    g.add_edge(t, self.thing())
            return k, (g, self.cli(hv, 2)[1], self.S.ImmNodeSet([self.things[0]]), self.S.ImmNodeSet([self.things[1]]))
        c = hv.cli_type()
        return k, (c, type(self.thing()), ident, rng.choice([None, ident]))

    def memo(self):
        return {}

    def refgraph(self):
        g = self.C.NodeGraph()
        for t in self.things:
            for i in range(self.rng.randrange(3)):
                g.add_edge(t, self.rng.choice([self.thing(), self.root]))
        return g

    def kindval(self, x):
        return self.state(x)

    def cli_op(self):
        rng = self.rng
        hv = self.hv()
        r = rng.random()
        if r < .2:
            k, args = self.cli_args(hv)
            t = self.thing()
            return Op("cli-make-" + k, [hv], lambda h, m=CLI.get(k, "cli_" + k), args=args: getattr(h, m)(*args), lambda c: self.kindval(c.classify(t)))
        r = rng.random()
        k, c = self.cli(hv)
        name = "cli-%s" % k
        if r < .25:
            return Op(name + "-classify", [c, self.thing()], lambda c, x: c.classify(x), self.kindval)
        if r < .55:
            return Op(name + "-partition", [c, self.seq()], lambda c, s: c.partition(s), lambda r: sorted(((repr(self.kindval(k)), sorted(map(id, v))) for k, v in r.items())))
        if r < .8:
            return Op(name + "-epartition", [c, self.seq()], lambda c, s: c.epartition(s), lambda r: sorted((repr(self.kindval(k)), id(x)) for k, x in r))
        t = self.thing()
        return Op(name + "-select", [c, self.seq(), c.classify(t), rng.choice(["==", "!="])], lambda c, s, k, m: c.select(s, k, m), lambda r: sorted(map(id, r)))


CLI = {"user": "cli_user_defined"}


def ident(x):
    return x


class MyInt(int):
    pass


class Iter:
    """An iterable that is no list."""

    def __init__(self, l):
        self.l = l

    def __iter__(self):
        return iter(self.l)


def result(ops, op, e, r):
    """A comparable form of a result."""
    if e:
        return None
    if op.norm:
        return op.norm(r)
    if isinstance(r, (set, frozenset)):
        return sorted(r)
    return ops.state(r)
