"""Monitors for N01 (node sets as identity sets), N02 (references held by the
containers) and G01 (node graphs as relations on identities)."""
import gc
import sys
import weakref

import vw
from guppy.sets import (ImmNodeSet, MutNodeSet, NodeSet, immnodeset, mutnodeset,
                        immnodeset_union, mutnodeset_union)
from guppy.heapy.heapyc import NodeGraph


class Plain:
    pass


class Slot:
    __slots__ = ("__weakref__",)


class EqAll:
    def __eq__(self, o):
        return True

    def __hash__(self):
        return 7


class EqNone:
    def __eq__(self, o):
        return False
    __hash__ = None


class EqRaise:
    def __eq__(self, o):
        raise ZeroDivisionError("eq")

    def __hash__(self):
        raise ZeroDivisionError("hash")

    def __bool__(self):
        raise ZeroDivisionError("bool")

    def __lt__(self, o):
        raise ZeroDivisionError("lt")


class BadGet:
    def __getattribute__(self, name):
        raise RuntimeError("getattribute " + name)


class SubMut(MutNodeSet):
    pass


class SubImm(ImmNodeSet):
    pass


class SubList(list):
    pass


def zoo(r, n, immortal=True):
    """n distinct objects of many types; hostile equality, spread addresses."""
    objs = []
    mk = [Plain, Slot, EqAll, EqNone, EqRaise, BadGet, list, dict, SubList, set,
          lambda: bytearray(r.choice((0, 10, 1000, 70000, 300000))),
          lambda: bytes(r.choice((20, 5000, 200000))),
          lambda: [None] * r.choice((1, 100, 20000)),
          lambda: float(r.randrange(5)), lambda: r.randrange(2 ** 70, 2 ** 70 + 3),
          lambda: (lambda: 0), lambda: "s%d" % r.randrange(3) + "t", lambda: (r.randrange(3), []),
          lambda: type("T", (), {}), lambda: (i for i in ()), lambda: iter([]),
          lambda: MutNodeSet(), lambda: ImmNodeSet([1]), lambda: NodeGraph(), object]
    if immortal:
        objs += [None, True, False, 0, 1, -5, 256, "", (), int, object, Ellipsis, NotImplemented, sys]
    objs = objs[:n // 3]
    seen = {id(o) for o in objs}
    junk = []
    while len(objs) < n:
        o = r.choice(mk)()
        if id(o) in seen:
            continue
        seen.add(id(o))
        objs.append(o)
        if r.random() < .3:
            junk.append(bytearray(r.randrange(1, 3000)))   # spread the addresses
    r.shuffle(objs)
    return objs


def ids(it):
    return [id(x) for x in it]


class C:
    """A container with its model: the frozenset of member indices."""
    def __init__(self, real, m):
        self.real = real
        self.m = frozenset(m)


class NS:
    """One history over node sets."""

    def __init__(self, w, objs):
        self.w = w
        self.r = w.rng
        self.objs = objs
        self.idx = {id(o): i for i, o in enumerate(objs)}
        self.pool = []
        self.log = []

    def bad(self, key, msg):
        self.w.violate(key, msg + "\nhistory (last):\n  " + "\n  ".join(self.log[-30:]))
        raise StopCase

    def rset(self):
        r = self.r
        n = len(self.objs)
        k = r.choice((0, 1, 2, 3, n // 4, n // 2, n))
        return r.sample(range(n), min(k, n))

    def verify(self, c, what):
        w = self.w
        got = [self.idx.get(id(x), -1) for x in c.real]
        w.event("verify")
        if len(got) != len(set(got)):
            self.bad("dup-yield", "%s yields a member twice: %r" % (what, got[:50]))
        if set(got) != c.m:
            self.bad("members", "%s holds %r, model %r" % (what, sorted(set(got) ^ c.m)[:20], len(c.m)))
        if len(c.real) != len(c.m):
            self.bad("len", "%s len %d, model %d" % (what, len(c.real), len(c.m)))
        if bool(c.real) != bool(c.m):
            self.bad("bool", "%s bool" % what)
        for i in self.r.sample(range(len(self.objs)), min(6, len(self.objs))):
            w.event("membership")
            if (self.objs[i] in c.real) is not (i in c.m):
                self.bad("in", "%s: membership of object %d (%s) wrong" % (what, i, type(self.objs[i]).__name__))
        if type(c.real) in (ImmNodeSet, SubImm):
            if not c.real.is_immutable:
                self.bad("is_immutable", what)
            i = self.r.randrange(len(self.objs))
            try:
                o = c.real.obj_at(id(self.objs[i]))
            except ValueError:
                o = w
            w.event("obj_at")
            if (o is not w) != (i in c.m) or (i in c.m and o is not self.objs[i]):
                self.bad("obj_at", "%s: obj_at(%d)" % (what, i))
        elif c.real.is_immutable:
            self.bad("is_immutable", what)

    def operand(self):
        """-> (description, the value, its member indices, is a node set)"""
        r = self.r
        k = r.randrange(9)
        if k < 4 and self.pool:
            c = r.choice(self.pool)
            return "set%d" % self.pool.index(c), c.real, c.m, True
        l = self.rset()
        if r.random() < .4 and l:
            l = l + [r.choice(l) for _ in range(r.randrange(1, 5))]
            r.shuffle(l)
        o = [self.objs[i] for i in l]
        if k == 4:
            return "list%r" % l[:8], o, frozenset(l), False
        if k == 5:
            return "tuple%r" % l[:8], tuple(o), frozenset(l), False
        if k == 6:
            return "gen%r" % l[:8], (x for x in o), frozenset(l), False
        if k == 7:
            return "iter%r" % l[:8], iter(o), frozenset(l), False
        return "values%r" % l[:8], dict(enumerate(o)).values(), frozenset(l), False

    def new(self):
        r = self.r
        t = r.choice((mutnodeset, immnodeset, SubMut, SubImm))
        d, o, m, _ = self.operand()
        if r.random() < .1:
            d, o, m = "", None, frozenset()
            real = t()
        elif r.random() < .15:
            parts = [self.operand() for _ in range(r.randrange(4))]
            m = frozenset().union(*(p[2] for p in parts))
            f = r.choice((mutnodeset_union, immnodeset_union))
            d = f.__name__
            real = f([p[1] for p in parts])
        else:
            real = t(o)
        self.log.append("new %s(%s)" % (t.__name__, d))
        return C(real, m)

    def put(self, c):
        if len(self.pool) < 7:
            self.pool.append(c)
        else:
            self.pool[self.r.randrange(7)] = c

    def step(self):
        w, r, objs = self.w, self.r, self.objs
        if not self.pool or r.random() < .12:
            c = self.new()
            self.put(c)
            w.event("new")
            self.verify(c, "new set")
            return
        k = r.randrange(10)
        c = r.choice(self.pool)
        ci = self.pool.index(c)
        mut = isinstance(c.real, MutNodeSet)
        if k < 5 and mut:
            i = r.randrange(len(objs))
            if r.random() < .5 and c.m:
                i = r.choice(sorted(c.m))
            o = objs[i]
            op = r.choice(("add", "append", "discard", "remove", "tas", "tac", "pop", "clear" if r.random() < .15 else "add"))
            self.log.append("set%d.%s(%d)" % (ci, op, i))
            w.beat("%s %s" % (op, type(o)))
            has = i in c.m
            try:
                res = getattr(c.real, op)(*(() if op in ("pop", "clear") else (o,)))
                exc = None
            except ValueError as e:
                exc = e
                res = None
            w.event("update")
            want_exc = (op == "append" and has) or (op == "remove" and not has) or (op == "pop" and not c.m)
            if (exc is not None) != want_exc:
                self.bad("error:" + op, "%s: raised %r, model %s" % (op, exc, want_exc))
            if op in ("add", "append", "tas"):
                c.m |= {i}
            elif op in ("discard", "remove", "tac"):
                c.m -= {i}
            elif op == "clear":
                c.m = frozenset()
            elif not exc:
                j = self.idx.get(id(res), -1)
                if j not in c.m:
                    self.bad("pop", "popped object %d not in the set" % j)
                c.m -= {j}
            if op in ("tas", "tac"):
                if res is not has:
                    self.bad("ret:" + op, "%s returned %r, expected %r" % (op, res, has))
            elif op != "pop" and res is not None:
                self.bad("ret:" + op, "%s returned %r" % (op, res))
            w.case((op, has, type(o).__name__, min(len(c.m), 5)))
            self.verify(c, "set%d" % ci)
            return
        if k < 8:
            d, o, m, isset = self.operand()
            op = r.choice("&|^-")
            a = c.m
            res_m = {"&": a & m, "|": a | m, "^": a ^ m, "-": a - m}[op]
            inplace = r.random() < .5
            self.log.append("set%d %s%s %s" % (ci, op, "=" if inplace else "", d))
            w.beat("op %s%s %s" % (op, "=" if inplace else "", d))
            if inplace:
                x = c.real
                before = list(x)
                if op == "&":
                    x &= o
                elif op == "|":
                    x |= o
                elif op == "^":
                    x ^= o
                else:
                    x -= o
                w.event("iop")
                if mut:
                    if x is not c.real:
                        self.bad("iop-identity", "in-place operation made a new set")
                    c.m = res_m
                    self.verify(c, "set%d" % ci)
                else:
                    if ids(c.real) != ids(before):
                        self.bad("imm-changed", "in-place operator changed an immutable set")
                    self.verify(c, "left operand")
                    nc = C(x, res_m)
                    self.verify(nc, "result")
                    self.pool[ci] = nc
            else:
                if op == "&":
                    x = c.real & o
                elif op == "|":
                    x = c.real | o
                elif op == "^":
                    x = c.real ^ o
                else:
                    x = c.real - o
                w.event("op")
                nc = C(x, res_m)
                self.verify(nc, "result of set%d %s %s" % (ci, op, d))
                self.verify(c, "left operand")
                if not isinstance(x, ImmNodeSet):
                    self.bad("op-type", "operator result is %s" % type(x))
                self.put(nc)
            for p in self.pool:
                if p.real is o:
                    self.verify(p, "right operand")
            w.case((op, inplace, type(c.real).__name__, type(o).__name__, min(len(a), 4), min(len(m), 4), len(a & m) > 0))
            return
        if k == 8:
            b = r.choice(self.pool)
            A, B = c.real, b.real
            a, m = c.m, b.m
            for op, got, want in (("==", A == B, a == m), ("!=", A != B, a != m), ("<=", A <= B, a <= m),
                                  ("<", A < B, a < m), (">=", A >= B, a >= m), (">", A > B, a > m)):
                w.event("cmp")
                if got is not want:
                    self.bad("cmp" + op, "%r %s %r gave %r" % (sorted(a)[:20], op, sorted(m)[:20], got))
            if A.is_immutable and B.is_immutable and a == m:
                w.event("hash")
                if hash(A) != hash(B):
                    self.bad("hash", "equal immutable sets hash differently: %r" % (sorted(a)[:20],))
            # sets of the same members, however they were made (the tag that
            # says what is hidden is no part of what a set contains)
            tag = r.choice((objs[0], objs[-1], None, "tag"))
            src = r.choice((A, list(A)))
            E = r.choice((ImmNodeSet, immnodeset))(src, hiding_tag=tag)
            D = ImmNodeSet(A)
            w.event("cmp")
            if not (E == D and D == E and E <= D and D <= E) or E != D or E < D or D < E:
                self.bad("cmp-tag", "sets of the same members differ: %r" % (sorted(a)[:20],))
            w.event("hash")
            if hash(E) != hash(D) or len({E, D}) != 1:
                self.bad("hash", "equal immutable sets hash differently (one has a hiding tag): %r" % (sorted(a)[:20],))
            w.case(("cmp", a <= m, m <= a, type(A).__name__, type(B).__name__, min(len(a), 4)))
            return
        # a failing operation changes nothing
        f = r.randrange(5)
        before = [(p, ids(p.real)) for p in self.pool]
        try:
            if f == 0:
                c.real < [1]
                e = None
            elif f == 1:
                c.real | 5
                e = None
            elif f == 2:
                [objs[0]] - c.real
                e = None
            elif f == 3:
                if c.real.is_immutable:
                    c.real.obj_at("x")
                else:
                    hash(c.real)
                e = None
            else:
                x = c.real
                x &= 7
                e = None
        except TypeError as x:
            e = x
        w.event("rejected")
        if e is None:
            self.bad("not-rejected", "operation %d with a foreign operand was accepted" % f)
        if c.real == [1] or not (c.real != [1]):
            self.bad("eq-foreign", "node set equal to a list")
        for p, b in before:
            if ids(p.real) != b:
                self.bad("reject-changed", "failed operation changed a set")


class StopCase(Exception):
    pass


def run_N01(w):
    r = w.rng
    n = w.args["n"]
    i = 0
    while w.more(i, n):
        i += 1
        size = r.choice((4, 10, 10, 30, 30, 60, 200))
        h = NS(w, zoo(r, size))
        try:
            for _ in range(r.choice((20, 60, 150))):
                h.step()
            w.event("history")
            for k, c in enumerate(h.pool):
                h.verify(c, "set%d at the end" % k)
        except StopCase:
            pass
        if i % 97 == 0:
            big(w)


def big(w):
    """Tens of thousands of members, many bit set segments."""
    r = w.rng
    n = r.choice((5000, 30000))
    objs = [[] if k % 3 else Plain() for k in range(n)]
    h = NS(w, objs)
    keep = r.sample(range(n), n // 2)
    m = MutNodeSet()
    order = list(range(n))
    r.shuffle(order)
    for k in order:
        m.append(objs[k])
    c = C(m, range(n))
    try:
        h.verify(c, "big set")
        imm = C(ImmNodeSet(m), range(n))
        half = [objs[k] for k in keep]
        m -= half
        c.m -= set(keep)
        h.verify(c, "big set after -=")
        h.verify(imm, "big snapshot")
        m ^= half[: n // 4] + half[: n // 8]
        c.m ^= set(keep[: n // 4])
        h.verify(c, "big set after ^=")
        h.verify(C(imm.real - m, imm.m - c.m), "difference")
        h.verify(C(imm.real & m, c.m), "intersection")
        h.verify(C(m | imm.real, imm.m), "union")
        while m:
            x = m.pop()
            j = h.idx[id(x)]
            if j not in c.m:
                h.bad("pop", "popped a stranger")
            c.m -= {j} if r.random() < .001 else frozenset()
            if len(m) < len(c.m) - 3000:
                break
        w.event("big")
    except StopCase:
        pass


# ---------------------------------------------------------------- N02

class Node:
    __slots__ = ("__weakref__", "ref", "x")


def run_N02(w):
    r = w.rng
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        refs_history(w, r)
        for f in (cycles, alive):
            f(w, r)


class Boom(Exception):
    pass


def refs_history(w, r):
    n = r.choice((3, 8, 20))
    mk = r.choice(((Node,), (list, dict, Node), (lambda: bytearray(5), EqAll, EqRaise, EqNone, Node)))
    objs = [r.choice(mk)() for _ in range(n)]
    idx = {id(o): k for k, o in enumerate(objs)}
    getref = sys.getrefcount

    def counts():
        return [getref(objs[k]) for k in range(n)]

    base = counts()
    pool = []          # [kind, real, model, (hiding tag index)]
    log = []

    def expected():
        e = list(base)
        for c in pool:
            if c[0] == "g":
                for s, t in c[2]:
                    e[s] += 1
                    e[t] += 1
            else:
                for k in c[2]:
                    e[k] += 1
            if c[3] is not None:
                e[c[3]] += 1
        return e

    def gen(l, fail):
        for k in l:
            yield objs[k]
        if fail:
            raise Boom

    def operand():
        """-> (maker of the operand, members, fails)"""
        l = [r.randrange(n) for _ in range(r.choice((0, 1, 3, 8)))]
        k = r.randrange(6)
        if k == 0:
            return (lambda: [objs[j] for j in l]), l, False
        if k == 1:
            return (lambda: gen(l, False)), l, False
        if k == 2:
            return (lambda: gen(l, True)), l, True
        if k == 3:
            return (lambda: MutNodeSet([objs[j] for j in l])), l, False
        if k == 4:
            return (lambda: ImmNodeSet([objs[j] for j in l])), l, False
        return (lambda: 5), [], "type"

    def check(what):
        gcs = [c for c in pool if c[0] == "g"]
        for c in gcs:
            len(c[1])        # collapse duplicates
        got, want = counts(), expected()
        w.event("refcheck")
        if got != want:
            ex = [(k, type(objs[k]).__name__, got[k] - want[k]) for k in range(n) if got[k] != want[k]][:6]
            w.violate("refs:" + what, "reference counts off by %r after %s\n  %s" % (ex, what, "\n  ".join(log[-25:])))
            raise StopCase
    try:
        for _ in range(r.choice((15, 40))):
            k = r.randrange(13)
            what = "?"
            if k == 0 or len(pool) < 2:
                t = r.choice((MutNodeSet, ImmNodeSet, SubMut, SubImm))
                f, l, fail = operand()
                tag = None
                what = "new-%s%s" % (t.__name__, "-fail" if fail else "")
                log.append("%s %r" % (what, l))
                w.beat(what)
                try:
                    if t in (ImmNodeSet, SubImm) and r.random() < .4:
                        tag = r.randrange(n)
                        real = t(f(), objs[tag])
                    else:
                        real = t(f())
                    pool.append(["m" if t in (MutNodeSet, SubMut) else "i", real, frozenset(l), tag])
                    if t is SubMut and False:
                        pass
                except (Boom, TypeError):
                    pass
                real = None
                if t in (SubMut,) and not fail:
                    pass
            elif k == 1:
                f, l, fail = operand()
                e = [(s, r.randrange(n)) for s in l]
                what = "new-graph"
                log.append("%s %r" % (what, e))
                pool.append(["g", NodeGraph([(objs[s], objs[t]) for s, t in e]), frozenset(e), None])
            elif k == 2:
                c = pool.pop(r.randrange(len(pool)))
                what = "drop-" + c[0]
                log.append(what)
                c[1] = None
            else:
                c = r.choice(pool)
                ci = pool.index(c)
                if c[0] == "g":
                    what = graph_op(w, r, c, objs, n, pool, log, gen)
                else:
                    op = r.choice(("add", "discard", "remove", "append", "tas", "tac", "clear", "pop",
                                   "iop", "iop", "iop", "op", "op", "iter", "iter", "cmp", "tag", "gc"))
                    if c[0] == "i" and op in ("add", "discard", "remove", "append", "tas", "tac", "clear", "pop", "tag"):
                        op = "op"
                    what = op
                    j = r.randrange(n)
                    w.beat("%s set%d %d" % (op, ci, j))
                    log.append("set%d %s %d" % (ci, op, j))
                    if op in ("add", "discard", "remove", "append", "tas", "tac"):
                        try:
                            getattr(c[1], op)(objs[j])
                        except ValueError:
                            what += "-fail"
                        if op in ("add", "append", "tas"):
                            c[2] |= {j}
                        else:
                            c[2] -= {j}
                    elif op == "clear":
                        c[1].clear()
                        c[2] = frozenset()
                    elif op == "pop":
                        if c[2]:
                            o = c[1].pop()
                            c[2] -= {idx[id(o)]}
                            o = None
                        else:
                            try:
                                c[1].pop()
                            except ValueError:
                                pass
                    elif op == "tag":
                        c[1]._hiding_tag_ = objs[j]
                        c[3] = j
                    elif op in ("op", "iop"):
                        f, l, fail = operand()
                        o = r.choice("&|^-")
                        log[-1] += " %s %r %s" % (o, l, fail)
                        m = frozenset(l)
                        res = {"&": c[2] & m, "|": c[2] | m, "^": c[2] ^ m, "-": c[2] - m}[o]
                        x = y = None
                        what = op + o + ("-fail" if fail else "")
                        try:
                            y = f()
                            x = c[1]
                            if op == "iop":
                                if o == "&":
                                    x &= y
                                elif o == "|":
                                    x |= y
                                elif o == "^":
                                    x ^= y
                                else:
                                    x -= y
                                if c[0] == "m":
                                    c[2] = res
                                else:
                                    pool.append(["i", x, res, c[3]])
                            else:
                                if o == "&":
                                    x = x & y
                                elif o == "|":
                                    x = x | y
                                elif o == "^":
                                    x = x ^ y
                                else:
                                    x = x - y
                                pool.append(["i", x, res, c[3]])
                        except (Boom, TypeError):
                            # what got in before the failure is in
                            c[2] = frozenset(idx[id(z)] for z in c[1])
                            z = None
                        except ValueError as e:
                            if "hiding" not in str(e):
                                raise
                            e = None
                        x = y = None
                    elif op == "iter":
                        it = iter(c[1])
                        for _ in range(r.randrange(4)):
                            next(it, None)
                        if r.random() < .5:
                            list(it)
                        it = None
                    elif op == "cmp":
                        c[1] == r.choice(pool)[1]
                        if c[0] == "i":
                            hash(c[1])
                            try:
                                c[1].obj_at(id(objs[j]))
                            except ValueError:
                                pass
                    elif op == "gc":
                        gc.collect(r.randrange(3))
                    w.case((what, c[0], min(len(c[2]), 4)))
                if len(pool) > 8:
                    pool[0] = None
                    pool.pop(0)
                c = None
            check(what)
        pool.clear()
        w.event("history")
        check("drop-all")
    except StopCase:
        pass


def graph_op(w, r, c, objs, n, pool, log, gen):
    g = c[1]
    op = r.choice(("add_edge", "n1", "n1fail", "update", "updatefail", "updated", "copy", "invert", "inverted",
                   "clear", "index", "assign", "assign", "domain", "range", "relimg", "relimgfail", "covers", "restricted", "iter",
                   "flat", "tag", "assignfail"))
    log.append("graph " + op)
    w.beat(op)
    e = [(r.randrange(n), r.randrange(n)) for _ in range(r.randrange(5))]
    E = [(objs[s], objs[t]) for s, t in e]
    s, t = r.randrange(n), r.randrange(n)
    if op == "add_edge":
        g.add_edge(objs[s], objs[t])
        c[2] |= {(s, t)}
    elif op in ("n1", "n1fail"):
        l = [x for x, _ in e]
        try:
            g.add_edges_n1(gen(l, op == "n1fail"), objs[t])
        except Boom:
            pass
        c[2] |= {(x, t) for x in l}
    elif op == "update":
        g.update(E)
        c[2] |= set(e)
    elif op == "updatefail":
        try:
            g.update(E + [objs[s]])
        except TypeError:
            pass
        c[2] |= set(e)
    elif op == "updated":
        pool.append(["g", g.updated(E), c[2] | set(e), c[3]])
    elif op == "copy":
        pool.append(["g", g.copy(), c[2], c[3]])
    elif op == "invert":
        g.invert()
        c[2] = frozenset((b, a) for a, b in c[2])
    elif op == "inverted":
        pool.append(["g", g.inverted(), frozenset((b, a) for a, b in c[2]), c[3]])
    elif op == "clear":
        g.clear()
        c[2] = frozenset()
    elif op == "index":
        g[objs[s]]
    elif op == "assign":
        if c[2]:
            s = r.choice(sorted(c[2]))[0]
        k = len({b for a, b in c[2] if a == s})
        l = r.sample(range(n), k)
        g[objs[s]] = tuple(objs[x] for x in l)
        c[2] = frozenset(x for x in c[2] if x[0] != s) | {(s, x) for x in l}
    elif op == "assignfail":
        try:
            g[objs[s]] = tuple(objs[:1]) * (n + 1)
        except ValueError:
            pass
        try:
            g[objs[s]] = objs[t]
        except TypeError:
            pass
        try:
            del g[objs[s]]
        except NotImplementedError:
            pass
    elif op == "domain":
        g.get_domain()
    elif op == "range":
        g.get_range()
    elif op in ("relimg", "relimgfail"):
        try:
            g.relimg(gen([s, t], op == "relimgfail"))
        except Boom:
            pass
    elif op == "covers":
        g.domain_covers([objs[s], objs[t]])
    elif op == "restricted":
        g.domain_restricted([objs[s], objs[t], objs[s]])
    elif op == "iter":
        it = iter(g)
        next(it, None)
        if r.random() < .5:
            list(it)
        elif r.random() < .5:
            g.add_edge(objs[s], objs[t])
            c[2] |= {(s, t)}
            try:
                list(it)
            except RuntimeError:
                pass
    elif op == "flat":
        g.as_flat_list()
    elif op == "tag":
        g._hiding_tag_ = objs[s]
        c[3] = s
    w.case((op, min(len(c[2]), 4)))
    return "graph-" + op


def cycles(w, r):
    """A cycle through a container is collected."""
    kinds = ("mut", "imm", "graph-src", "graph-tgt", "sub-mut", "sub-imm", "tag-imm", "tag-mut", "tag-graph",
             "imm-iter", "graph-iter", "mut-in-mut", "imm-of-mut")
    k = r.choice(kinds)
    o = Node()
    ref = weakref.ref(o)
    extra = [Node() for _ in range(r.randrange(5))]
    refs = [weakref.ref(x) for x in extra]
    if k in ("mut", "sub-mut"):
        c = {"mut": MutNodeSet, "sub-mut": SubMut}[k]([o] + extra)
        if k == "sub-mut":
            c.attr = o
    elif k in ("imm", "sub-imm"):
        c = {"imm": ImmNodeSet, "sub-imm": SubImm}[k]([o] + extra)
    elif k == "graph-src":
        c = NodeGraph([(o, x) for x in extra] + [(o, 1)])
    elif k == "graph-tgt":
        c = NodeGraph([(x, o) for x in extra] + [(1, o)])
    elif k == "tag-imm":
        c = ImmNodeSet(extra, o)
    elif k == "tag-mut":
        c = MutNodeSet(extra)
        c._hiding_tag_ = o
    elif k == "tag-graph":
        c = NodeGraph([(x, x) for x in extra])
        c._hiding_tag_ = o
    elif k == "imm-iter":
        c = iter(ImmNodeSet([o] + extra))
    elif k == "graph-iter":
        c = iter(NodeGraph([(o, o)] + [(x, o) for x in extra]))
    elif k == "mut-in-mut":
        c = MutNodeSet()
        d = MutNodeSet([c, o] + extra)
        c.add(d)
        d = None
    else:
        c = ImmNodeSet([MutNodeSet([o] + extra)])
    o.ref = c
    w.beat("cycle " + k)
    gc.collect()
    if ref() is None or any(x() is None for x in refs):
        w.violate("cycle-early:" + k, "collector freed members of a live container (%s)" % k)
    del o, c, extra
    x = None
    gc.collect()
    w.event("cycle")
    w.case(("cycle", k))
    if ref() is not None or any(x() is not None for x in refs):
        w.violate("cycle-leak:" + k, "a reference cycle through %s is not collected" % k)


def alive(w, r):
    """Objects held only by a container stay alive; removal frees them at once."""
    n = r.randrange(1, 12)
    refs = []

    def mk():
        o = Node()
        refs.append(weakref.ref(o))
        return o
    k = r.choice(("mut", "imm", "graph"))
    if k == "mut":
        c = MutNodeSet(mk() for _ in range(n))
    elif k == "imm":
        c = ImmNodeSet(mk() for _ in range(n))
    else:
        c = NodeGraph((mk(), mk()) for _ in range(n))
    if any(x() is None for x in refs):
        w.violate("alive:" + k, "an object held only by the container died")
    w.event("alive")
    junk = [Node() for _ in range(20)]
    del junk
    if k == "mut":
        how = r.choice(("remove", "pop", "clear", "isub", "iand", "drop", "ixor"))
        if how == "remove":
            while c:
                o = next(iter(c))
                c.remove(o)
                o = None
        elif how == "pop":
            while c:
                c.pop()
        elif how == "clear":
            c.clear()
        elif how == "isub":
            c -= list(c)
        elif how == "ixor":
            c ^= list(c)
        elif how == "iand":
            c &= []
    elif k == "graph":
        how = r.choice(("clear", "assign", "drop"))
        if how == "clear":
            c.clear()
        elif how == "assign":
            for s, t in list(c):
                c[s] = (None,)
                s = t = None
            if any(x() is not None for x in refs[1::2]):
                w.violate("free:graph-assign", "overwritten targets are not released")
    else:
        how = "drop"
    if how == "drop" or k == "graph":
        c = None
    w.case(("alive", k, how))
    if any(x() is not None for x in refs):
        w.violate("free:%s-%s" % (k, how), "objects removed from the container (%s) are still alive" % how)


# ---------------------------------------------------------------- G01

class SubGraph(NodeGraph):
    pass


def run_G01(w):
    r = w.rng
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        n = r.choice((2, 5, 5, 12, 40, 200))
        objs = zoo(r, n)
        idx = {id(o): k for k, o in enumerate(objs)}
        try:
            graph_history(w, r, objs, idx, r.choice((20, 60)))
            mapping_history(w, r, objs, idx, 30)
            w.event("history")
        except StopCase:
            pass


def graph_history(w, r, objs, idx, steps):
    n = len(objs)
    log = []
    pool = []

    def bad(key, msg):
        w.violate(key, msg + "\n  " + "\n  ".join(log[-30:]))
        raise StopCase

    def ex(it):
        return [idx.get(id(x), -1) for x in it]

    def redges():
        k = r.choice((0, 1, 3, 10, 60))
        if r.random() < .4:
            s = r.randrange(n)
            e = [(s if r.random() < .7 else r.randrange(n), r.randrange(n)) for _ in range(k)]
        else:
            e = [(r.randrange(n), r.randrange(n)) for _ in range(k)]
        if e and r.random() < .4:
            e += [r.choice(e) for _ in range(r.randrange(6))]
        return e

    def real(e):
        E = [(objs[s], objs[t]) for s, t in e]
        k = r.randrange(4)
        return E if k == 0 else tuple(E) if k == 1 else iter(E) if k == 2 else (x for x in E)

    def rnodes():
        l = [r.randrange(n) for _ in range(r.choice((0, 1, 2, 5, n)))]
        o = [objs[k] for k in l]
        k = r.randrange(5)
        return l, (o if k == 0 else tuple(o) if k == 1 else iter(o) if k == 2 else MutNodeSet(o) if k == 3 else ImmNodeSet(o))

    def query(c, op=None):
        g, m = c
        op = op or r.choice(("index", "index", "len", "iter", "flat", "domain", "range", "relimg", "covers", "restricted"))
        log.append("g%d ? %s" % (pool.index(c), op))
        w.beat("query " + op)
        w.event("query")
        if op == "index":
            s = r.randrange(n)
            if m and r.random() < .6:
                s = r.choice(sorted(m))[0]
            got = g[objs[s]]
            if type(got) is not tuple:
                bad("index-type", "g[x] is %s" % type(got))
            got = ex(got)
            if len(got) != len(set(got)) or set(got) != {t for a, t in m if a == s}:
                bad("index", "g[%d] = %r, model %r" % (s, got, sorted(t for a, t in m if a == s)))
        elif op == "len":
            if len(g) != len(m):
                bad("len", "len %d, model %d" % (len(g), len(m)))
            if bool(g) != bool(m):
                bad("bool", "truth value")
        elif op == "iter":
            got = [(idx.get(id(s), -1), idx.get(id(t), -1)) for s, t in g]
            if len(got) != len(set(got)) or set(got) != m:
                bad("iter", "iteration gives %r, model %r" % (sorted(set(got) ^ m)[:10], len(m)))
        elif op == "flat":
            f = ex(g.as_flat_list())
            got = list(zip(f[::2], f[1::2]))
            if set(got) != m or len(f) % 2:
                bad("flat", "as_flat_list differs: %r" % (sorted(set(got) ^ m)[:10],))
        elif op in ("domain", "range"):
            k = op == "range"
            got = ex(g.get_range() if k else g.get_domain())
            if len(got) != len(set(got)) or set(got) != {e[k] for e in m}:
                bad(op, "%s %r" % (op, sorted(set(got) ^ {e[k] for e in m})[:10]))
        elif op == "relimg":
            l, o = rnodes()
            got = ex(g.relimg(o))
            if len(got) != len(set(got)) or set(got) != {t for s, t in m if s in l}:
                bad("relimg", "relimg(%r) = %r" % (l, got[:20]))
        elif op == "covers":
            l, o = rnodes()
            got = g.domain_covers(o)
            dom = {s for s, t in m}
            if got is not all(x in dom for x in l):
                bad("covers", "domain_covers(%r) = %r" % (l, got))
        elif op == "restricted":
            l, o = rnodes()
            h = g.domain_restricted(o)
            got = {(idx.get(id(s), -1), idx.get(id(t), -1)) for s, t in h}
            if got != {(s, t) for s, t in m if s in l} or len(h) != len(got):
                bad("restricted", "domain_restricted(%r) = %r" % (l, sorted(got)[:20]))
        w.case((op, min(len(m), 6)))

    for step in range(steps):
        if not pool or r.random() < .1:
            e = redges()
            log.append("new %r" % e[:10])
            t = r.choice((NodeGraph, NodeGraph, SubGraph))
            pool.append((t(real(e)) if e or r.random() < .5 else t(), set(e)))
            if len(pool) > 5:
                pool.pop(0)
            continue
        c = r.choice(pool)
        g, m = c
        k = r.randrange(14)
        w.event("step")
        if k < 6:
            query(c)
        elif k == 6:
            s, t = r.randrange(n), r.randrange(n)
            log.append("g%d add %d %d" % (pool.index(c), s, t))
            g.add_edge(objs[s], objs[t])
            m.add((s, t))
        elif k == 7:
            l, o = rnodes()
            t = r.randrange(n)
            log.append("g%d n1 %r %d" % (pool.index(c), l, t))
            g.add_edges_n1(o, objs[t])
            m |= {(s, t) for s in l}
        elif k == 8:
            e = redges()
            log.append("g%d update %r" % (pool.index(c), e[:10]))
            if r.random() < .2:
                c2 = r.choice(pool)
                if c2[0] is not g:
                    g.update(c2[0])
                    m |= c2[1]
            else:
                g.update(real(e))
                m |= set(e)
        elif k == 9:
            e = redges()
            log.append("g%d updated/copy/inverted" % pool.index(c))
            f = r.randrange(3)
            nc = (g.updated(real(e)), m | set(e)) if f == 0 else (g.copy(), set(m)) if f == 1 else \
                (g.inverted(), {(t, s) for s, t in m})
            if type(nc[0]) is not type(g):
                bad("derived-type", "%s of %s" % (type(nc[0]), type(g)))
            pool.append(nc)
            query(nc, "iter")
            query(c, "iter")
        elif k == 10:
            log.append("g%d invert" % pool.index(c))
            g.invert()
            x = {(t, s) for s, t in m}
            m.clear()
            m |= x
        elif k == 11 and r.random() < .3:
            log.append("g%d clear" % pool.index(c))
            g.clear()
            m.clear()
        elif k == 12 and m:
            s = r.choice(sorted(m))[0]
            kk = len({t for a, t in m if a == s})
            l = r.sample(range(n), kk)
            log.append("g%d[%d] = %r" % (pool.index(c), s, l))
            g[objs[s]] = tuple(objs[x] for x in l)
            m -= {e for e in list(m) if e[0] == s}
            m |= {(s, x) for x in l}
            got = ex(g[objs[s]])
            if sorted(got) != sorted(l):
                bad("assign", "g[%d] = %r reads back %r" % (s, l, got))
            # wrong number of targets is refused and changes nothing
            for val in (tuple(objs[:1]) * (kk + 1), [objs[0]] * kk):
                try:
                    g[objs[s]] = val
                    bad("assign-accept", "assigning %d targets over %d" % (len(val), kk))
                except (ValueError, TypeError):
                    pass
            w.event("assign")
        elif k == 13:
            # an addition during iteration is noticed, what was yielded is right
            log.append("g%d modify during iteration" % pool.index(c))
            it = iter(g)
            got = []
            try:
                for q, (s, t) in enumerate(it):
                    got.append((idx[id(s)], idx[id(t)]))
                    if q == 1:
                        a, b = r.randrange(n), r.randrange(n)
                        size = len(g)
                        old = set(m)
                        g.add_edge(objs[a], objs[b])
                        m.add((a, b))
                    if q == 2 and (a, b) not in old:
                        bad("iter-modified", "iteration went on after an addition")
            except RuntimeError:
                w.event("iter-modified")
            if not set(got) <= m:
                bad("iter-modified-edges", "iteration yielded edges that are not there")
        if len(pool) > 5:
            pool.pop(0)
    for c in pool:
        for op in ("len", "iter", "flat", "domain", "range", "index"):
            query(c, op)


def mapping_history(w, r, objs, idx, steps):
    n = len(objs)
    keys = r.sample(range(n), r.randrange(n + 1))
    m = {k: {r.randrange(n)} for k in keys}
    g = NodeGraph([(objs[k], objs[next(iter(t))]) for k, t in m.items()], True)
    if not g.is_mapping:
        w.violate("is_mapping", "is_mapping lost")
    log = ["mapping %r" % m]

    def bad(key, msg):
        w.violate(key, msg + "\n  " + "\n  ".join(log[-30:]))
        raise StopCase
    for _ in range(steps):
        s, t = r.randrange(n), r.randrange(n)
        k = r.randrange(8)
        w.event("mapping")
        w.beat("mapping %d" % k)
        if k < 4:
            log.append("get %d" % s)
            try:
                got = g[objs[s]]
                got = {idx.get(id(got), -1)}
            except KeyError:
                got = set()
            except ValueError:
                got = None
            want = m.get(s, set())
            if (got is None) != (len(want) > 1) or (got is not None and got != want):
                bad("map-get", "g[%d] -> %r, model %r" % (s, got, want))
        elif k < 6:
            log.append("set %d %d" % (s, t))
            try:
                g[objs[s]] = objs[t]
                done = True
            except ValueError:
                done = False
            if done != (len(m.get(s, ())) == 1):
                bad("map-set", "assignment to %d accepted: %s, model has %r" % (s, done, m.get(s)))
            if done:
                m[s] = {t}
        elif k == 6:
            log.append("add %d %d" % (s, t))
            if s in m and r.random() < .8:
                continue
            g.add_edge(objs[s], objs[t])
            m.setdefault(s, set()).add(t)
        else:
            log.append("copy")
            g = g.copy() if r.random() < .5 else g.domain_restricted(list(objs))
            if not g.is_mapping:
                bad("is_mapping", "is_mapping lost in a derived graph")
    got = {(idx.get(id(a), -1), idx.get(id(b), -1)) for a, b in g}
    if got != {(a, b) for a in m for b in m[a]}:
        bad("map-iter", "edges differ")


def main(w):
    {"N01": run_N01, "N02": run_N02, "G01": run_G01}[w.args["mode"]](w)


vw.main(main)
