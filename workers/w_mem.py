"""M01: memory errors and undefined behaviour. Arguments of every kind for every
method, operations called again from what they call, finalizers that change what
is being released, objects that were not initialized or that were cleared. The
process has to survive, under the sanitizers too, and no call may end with an
internal error of the interpreter."""
import copy
import gc
import pickle
import sys
import types
import weakref

import vw
import vops
import vcb

T = vcb.T


class MemOps(vcb.CbOps):
    """Remembers what operations are made of."""

    def __init__(self, rng):
        self.made = []
        super().__init__(rng)

    def memo(self):
        d = super().memo()
        self.made.append(d)
        return d

    def refgraph(self):
        g = super().refgraph()
        self.made.append(g)
        return g

    def hv(self, fresh_root=True):
        h = super().hv()
        self.made.append(h)
        return h


class Fin:
    """Runs code when it is released."""
    act = None
    __slots__ = ("x", "__weakref__")

    def __init__(self, x=None):
        self.x = x

    def __del__(self):
        if Fin.act is not None:
            Fin.act()


class Keep:
    kept = []

    def __del__(self):
        Keep.kept.append(self.x)


class FinKind(Fin):
    __slots__ = ()

    def __hash__(self):
        return 5

    def __eq__(self, o):
        return type(o) is FinKind


def gen():
    x = yield
    yield x


async def coro():
    pass


class Memory:
    def __init__(self, w):
        self.w = w
        self.ops = MemOps(w.rng)
        self.S = self.ops.S
        self.C = self.ops.C

        def sub(b):
            return type("Sub" + b.__name__, (b,), {})
        self.bits = [self.S.MutBitSet, self.S.ImmBitSet, self.S.CplBitSet, self.S.BitSet, sub(self.S.MutBitSet), sub(self.S.ImmBitSet), sub(self.S.CplBitSet)]
        self.nodes = [self.S.MutNodeSet, self.S.ImmNodeSet, self.S.NodeSet, sub(self.S.MutNodeSet), sub(self.S.ImmNodeSet), sub(self.S.NodeSet)]
        self.graphs = [self.C.NodeGraph, sub(self.C.NodeGraph)]
        self.views = [self.C.HeapView, sub(self.C.HeapView)]
        self.rest = [self.C.Relation, self.C.Horizon, self.C.ObjectClassifier, self.C.RootStateType]
        self.types = self.bits + self.nodes + self.graphs + self.views + self.rest

    # -- objects

    def junk(self, depth=0):
        """Any object."""
        rng = self.rng
        k = rng.randrange(40)
        if k < 8:
            return rng.choice((0, 1, -1, 2, 63, 64, 65, 1000, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 40, 2 ** 62, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64, 1 << 200, -(1 << 200), True))
        if k < 11:
            return rng.choice(("", "x", "\ud800", "a" * 1000, "==", "<=", "!=", "\0", "f_back", "é", b"", b"xy" * 50))
        if k < 13:
            return rng.choice((None, Ellipsis, NotImplemented, 1.5, float("nan"), 2j, (), [], {}, set()))
        if k < 16:
            n = rng.randrange(4)
            l = [self.junk(depth + 1) for i in range(n)] if depth < 3 else []
            try:
                return rng.choice((list, tuple, vops.Iter, vcb.Iter, vcb.Gen, vcb.Seq, vcb.LenList))(l)
            except TypeError:
                return l
        if k < 18:
            return rng.choice((object, type, int, list, Fin, vops.Thing, type(None), types.FunctionType, self.junk, len, sys, types.ModuleType("m"), types.SimpleNamespace(), type("New", (), {}), slice(0, 5), range(3)))
        if k == 18:
            g = gen()
            if rng.random() < .6:
                next(g)
            return rng.choice((g, g.gi_frame, g.gi_code, sys._getframe(), type(g)))
        if k == 19:
            return rng.choice((lambda: weakref.ref(vops.Thing()), lambda: iter([1, 2]), zip, lambda: types.MappingProxyType({}), {1: 2}.keys, types.CellType, lambda: types.CellType(5), lambda: ValueError("x"), lambda: memoryview(b"x")))()
        if k == 20:
            return rng.choice((lambda: vcb.Index(5), lambda: vcb.SubInt(3), lambda: vcb.Sized(10), lambda: vcb.Kind(2), lambda: Fin(1), self.ops.thing))()
        return self.thing(depth)

    def thing(self, depth=0):
        """An object of a type of ours."""
        rng = self.rng
        k = rng.randrange(15)
        o = self.ops
        o.rng = rng
        if k < 3:
            return o.bs()
        if k < 5:
            return o.ns()
        if k < 7:
            return o.ng()
        if k == 7:
            h = o.hv()
            if rng.random() < .3:
                try:
                    h.root = self.junk(3)
                except TypeError:
                    pass
            return h
        if k == 8:
            return o.cli(o.hv())[1]
        if k == 9:
            return rng.choice((lambda: self.C.Relation(rng.choice([1, 5, 9]), self.ops.thing()), lambda: self.C.Horizon(o.nodes()), lambda: self.C.RootState, lambda: self.S._NyHeapDefs_))()
        if k == 10:
            x = rng.choice((o.bs, o.ns, o.ng))()
            try:
                return iter(x)
            except TypeError:
                return x
        if k == 11:
            return rng.choice(self.types)
        if k == 12:
            t = rng.choice(self.types)
            try:
                return t.__new__(t)
            except TypeError:
                return t
        if k == 13:
            # kept by a finalizer
            return self.cleared()
        t = rng.choice(self.types)
        try:
            return t(*[self.small(self.junk(3)) for i in range(rng.choice([0, 1, 1, 2]))])
        except Exception:
            return t

    def small(self, x):
        return x

    def cleared(self):
        """What a finalizer has kept of garbage."""
        rng, o = self.rng, self.ops
        x = rng.choice((o.ns, o.ng, o.hv, lambda: iter(o.ns()), lambda: iter(o.ng()), lambda: o.cli(o.hv())[1], lambda: self.C.Relation(1, o.thing())))()
        k = Keep()
        k.x = [k, x]
        del x, k
        Keep.kept.clear()
        gc.collect()
        return Keep.kept.pop()[1] if Keep.kept else None

    # -- calls with any arguments

    SKIP = {"__class__", "__init_subclass__", "__subclasshook__", "__del__", "_splitting_size", "_bs", "xmemstats",
            "__getstate__", "__sizeof__", "__doc__", "__module__", "__dict__", "__weakref__", "__dir__", "__subclasses__", "mro", "__call__", "__prepare__", "register", "__setstate__"}

    def check(self, name, f, args, ctx):
        """Anything but an internal error will do."""
        w = self.w
        try:
            r = f(*args)
        except SystemError as e:
            w.violate("system-error:" + name, "%s: %r" % (ctx(), e))
            r = None
        except MemoryError:
            w.event("memory-error")
            r = None
        except RecursionError:
            r = None
        except Exception as e:
            e.__traceback__ = None
            w.event("rejected")
            return None
        w.event("calls")
        return r

    def bigish(self, x):
        """Bit sets whose size as an int or list can not be afforded."""
        if isinstance(x, self.S.BitSet):
            try:
                if isinstance(x, self.S.CplBitSet):
                    return True
                x = self.S.immbitset(x)
                return isinstance(x, self.S.CplBitSet) or bool(x) and (x[-1] > 10 ** 7 or x[0] < 0)
            except Exception:
                return True
        return False

    def call(self, rng):
        w = self.w
        self.rng = rng
        T.reset()
        o = self.thing()
        names = [n for n in dir(o) if n not in self.SKIP]
        if isinstance(o, type) and o not in self.types:
            return
        tn = o.__name__ if isinstance(o, type) else type(o).__name__
        for i in range(rng.choice([1, 3, 6])):
            name = rng.choice(names)
            T.reset()
            args = [self.junk() for i in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4]))]
            if name in ("__int__", "__index__", "__hash__", "__float__", "__round__", "__trunc__") and (self.bigish(o) or any(map(self.bigish, args))):
                continue
            if name == "__lshift__" or name == "__rlshift__" or name == "__ilshift__":
                args = [a for a in args if not isinstance(a, int) or abs(a) < 10000]
            key = "%s.%s" % (tn.replace("Sub", ""), name)
            w.beat("%s %s" % (key, [type(a).__name__ + (" %r" % a)[:40] if isinstance(a, (int, str)) else type(a).__name__ for a in args]))

            def ctx():
                return "%s%r" % (key, tuple(type(a).__name__ + ((" %r" % a)[:60] if isinstance(a, (int, str, bytes, float)) else "") for a in args))
            r = rng.random()
            T.reset()
            value = self.junk()
            if rng.random() < .2:
                # and call backs raise
                T.reset(rng.randrange(3), True, vcb.Boom("x"))
            if r < .75:
                f = self.check("getattr " + key, getattr, (o, name), ctx)
                if callable(f):
                    self.check(key, f, args, ctx)
            elif r < .85:
                if not isinstance(o, type):
                    self.check("setattr " + key, setattr, (o, name, value), ctx)
            elif r < .88:
                if not isinstance(o, type):
                    self.check("delattr " + key, delattr, (o, name), ctx)
            elif args:
                import operator
                op = rng.choice((operator.or_, operator.and_, operator.xor, operator.sub, operator.ior, operator.iand, operator.ixor, operator.isub, operator.eq, operator.lt, operator.le, operator.contains, operator.getitem, operator.ge, operator.ne, operator.invert, operator.add, operator.mul, operator.neg, copy.copy, iter, bool, len, pickle.dumps, list))
                if self.bigish(o) and op is list or self.bigish(o) and op is operator.mul:
                    continue
                n = 1 if op in (operator.invert, operator.neg, copy.copy, iter, bool, len, pickle.dumps, list) else 2
                w.beat("%s %s %s" % (op.__name__, tn, [type(a).__name__ for a in args]))
                x = (o, args[0])
                if rng.random() < .5:
                    x = (args[0], o)
                    if self.bigish(args[0]) and op is list:
                        continue
                if n == 1:
                    x = x[:1]
                    if op is list and not isinstance(x[0], (self.S.BitSet, self.S.NodeSet)):
                        continue
                self.check("%s %s" % (op.__name__, tn), op, x, ctx)
            T.reset()
            w.case(sig=(key, tuple(type(a).__name__ for a in args)), sample=None)
        # It is still in order
        w.beat("repr %s" % tn)
        if not self.bigish(o):
            self.check("repr " + tn, repr, (o,), lambda: "repr of " + tn)

    def module(self, rng):
        """The functions of the modules and the constructors."""
        w = self.w
        self.rng = rng
        S, C = self.S, self.C
        f = rng.choice([S.immbit, S.immbitset, S.immbitrange, *self.types, *self.types])
        args = [self.junk() for i in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        if f is S.immbitrange:
            args = [a if not isinstance(a, int) else a % 1000 for a in args]
        kw = {}
        if rng.random() < .2:
            kw[rng.choice(["hiding_tag", "iterable", "is_mapping", "root", "heapdefs", "foo"])] = self.junk()
        key = f.__name__
        w.beat("%s %s %s" % (key, [type(a).__name__ + (" %r" % a)[:40] if isinstance(a, (int, str)) else type(a).__name__ for a in args], list(kw)))

        def ctx():
            return "%s%r" % (key, tuple(type(a).__name__ for a in args))
        o = self.check(key, lambda: f(*args, **kw), (), ctx)
        if o is not None and isinstance(f, type):
            self.check(key + ".__init__", lambda: o.__init__(*args), (), ctx)
        w.case(sig=(key, tuple(type(a).__name__ for a in args), tuple(kw)))

    # -- from within

    def mutate(self, x, rng):
        """Change an object, or use it."""
        S, C = self.S, self.C
        w = self.w
        k = rng.randrange(6)
        if isinstance(x, S.MutBitSet):
            if k == 0:
                x.clear()
            elif k == 1:
                x.add(rng.randrange(1 << 20))
            elif k == 2:
                x.discard(rng.randrange(100))
            elif k == 3:
                x |= S.immbitset([rng.randrange(1 << 30) for i in range(500)])
            elif k == 4:
                x ^= S.immbitrange(0, 3000)
            else:
                list(x) if len(x) < 10000 else None
        elif isinstance(x, S.MutNodeSet):
            if k == 0:
                x.clear()
            elif k == 1:
                x.add(vops.Thing())
            elif k == 2:
                x |= [vops.Thing() for i in range(300)]
            elif k == 3:
                x &= self.ops.things[:3]
            elif k == 4:
                if x:
                    x.pop()
            else:
                for y in list(x):
                    x.discard(y)
        elif isinstance(x, C.NodeGraph):
            if k == 0:
                x.clear()
            elif k == 1:
                for i in range(200):
                    x.add_edge(vops.Thing(), self.ops.things[0])
            elif k == 2:
                x.invert()
            elif k == 3:
                x.get_domain()
            elif k == 4:
                x.update([(vops.Thing(), self.ops.things[1]), (self.ops.things[0], self.ops.things[2])])
            else:
                for y in x.get_domain():
                    if not x.is_mapping:
                        x[y] = []
                    break
        elif isinstance(x, C.HeapView):
            if k == 0:
                x.root = [5]
            elif k == 1:
                x.register_hidden_exact_type(type("N", (), {}))
            elif k == 2:
                x.relimg([x.root])
            elif k == 3:
                x.limitframe = None
            elif k == 4:
                x._hiding_tag_ = []
            else:
                x.indisize_sum([x])
        elif isinstance(x, C.ObjectClassifier):
            if self.depth < 3:
                if k < 2:
                    x.classify(self.ops.things[rng.randrange(20)])
                elif k < 4:
                    x.partition(self.ops.things[:5])
                else:
                    x.select(self.ops.things[:5], x.classify(self.ops.things[0]), "==")
        elif isinstance(x, list):
            if k < 3:
                del x[rng.randrange(len(x) + 1):]
            else:
                x.extend(range(100)) if not any(x is y for y in self.ops.things) else x.clear()
        elif isinstance(x, dict):
            if k < 4:
                x.clear()
            else:
                for i in range(300):
                    x[i] = i
        elif isinstance(x, vcb.Maker):
            self.mutate(x.c, rng)
        elif hasattr(type(x), "l") or hasattr(x, "l"):
            self.mutate(x.l, rng)
        elif hasattr(x, "__next__"):
            next(x, None)
        else:
            gc.collect(0)
        w.event("from-within")

    def within(self, rng):
        """An operation whose call backs change its operands."""
        w, ops = self.w, self.ops
        self.rng = rng
        T.reset()
        T.act = None
        ops.made.clear()
        seed = rng.getrandbits(40)
        op = ops.make(seed)
        made = [x for x in ops.made]
        ops.made.clear()
        todo = [o for o in op.operands if not isinstance(o, (int, str))] + made
        name = op.name
        p = rng.choice([.05, .3, 1])
        n = rng.choice([1, 5, 50])
        w.beat("within %s seed %d" % (name, seed))
        self.depth = 0
        state = [n]

        def act(i=None):
            if state[0] <= 0 or self.depth > 3 or rng.random() > p:
                return
            state[0] -= 1
            self.depth += 1
            try:
                x = rng.choice(todo)
                w.beat("within %s seed %d change %s" % (name, seed, type(x).__name__))
                self.mutate(x, rng)
            except (TypeError, ValueError, RuntimeError, KeyError, AttributeError, IndexError) as e:
                if type(e) is not SystemError:
                    w.event("change-rejected")
            finally:
                self.depth -= 1
        T.act = act
        Fin.act = act
        try:
            r = self.check("within " + name, op.call, op.operands, lambda: "%s, seed %d" % (name, seed))
            if hasattr(r, "__next__"):
                for i in range(2000):
                    if self.check("next " + name, lambda: next(r, None), (), lambda: name) is None:
                        break
        finally:
            T.act = None
        # What is there afterwards works.
        for x in todo:
            w.beat("after %s %s" % (name, type(x).__name__))
            try:
                ops.state(x)
            except (TypeError, ValueError, RuntimeError):
                pass
            self.check("after " + name, self.mutate_quiet, (x, rng), lambda: name)
        r = x = op = todo = None
        Fin.act = None
        w.event("within")
        w.case(sig=("within", name, seed), sample="within " + name)

    def mutate_quiet(self, x, rng):
        self.depth = 3
        self.mutate(x, rng)

    # -- finalizers

    def finalizers(self, rng):
        """Members whose release changes the set or graph."""
        w, ops, S, C = self.w, self.ops, self.S, self.C
        self.rng = ops.rng = rng
        T.reset()
        n = rng.choice([1, 3, 20, 100])
        members = [Fin() for i in range(n)]
        todo = []
        self.depth = 0
        budget = [rng.choice([1, 3, 30])]
        p = rng.choice([.1, .5, 1])

        def act():
            if budget[0] <= 0 or self.depth > 2 or not todo or rng.random() > p:
                return
            budget[0] -= 1
            self.depth += 1
            try:
                self.mutate(rng.choice(todo), rng)
            except (TypeError, ValueError, RuntimeError, KeyError, AttributeError, IndexError):
                pass
            finally:
                self.depth -= 1
        kind = rng.randrange(7)
        mix = members + ops.things[:5]
        rng.shuffle(mix)
        h = C.HeapView(ops.root, ops.heapdefs)
        if kind < 2:
            x = S.MutNodeSet(mix)
            todo += [x, iter(x), S.MutNodeSet(mix[::2])]
        elif kind == 2:
            x = S.ImmNodeSet(mix)
            todo += [S.MutNodeSet(mix), iter(x)]
        elif kind < 5:
            e = [(rng.choice(mix), rng.choice(mix)) for i in range(2 * n)]
            x = C.NodeGraph(e)
            todo += [x, iter(x) if rng.random() < .5 else []]
            e = None
        elif kind == 5:
            ks = [FinKind() for i in range(4)]
            memo = {}
            x = h.cli_user_defined(h.cli_none(), None, lambda o: FinKind(), lambda k, memo=memo: memo.setdefault(k, k))
            todo += [memo, x]
        else:
            h.root = mix
            x = h
            todo += [h, mix]
        what = ""
        w.beat("finalizers %s" % type(x).__name__)
        Fin.act = act
        mix = members = None
        try:
            for i in range(rng.choice([1, 2, 5])):
                k = rng.randrange(9)
                what = "finalizers %s %d" % (type(x).__name__, k)
                w.beat(what)

                def do():
                    if isinstance(x, S.MutNodeSet):
                        if k == 0:
                            x.clear()
                        elif k == 1:
                            y = x
                            y &= ops.things[:3]
                        elif k == 2:
                            y = x
                            y -= list(x)[:5]
                        elif k == 3:
                            y = x
                            y ^= S.MutNodeSet(x)
                        elif k == 4:
                            while x:
                                x.pop()
                        elif k == 5:
                            for o in x:
                                x.discard(o)
                        elif k == 6:
                            x.discard(next(iter(x), None))
                        elif k == 7:
                            (x | [Fin()]) & ops.things
                        else:
                            x.__init__(ops.things[:3]) if hasattr(x, "__init__") else 0
                    elif isinstance(x, C.NodeGraph):
                        if k < 2:
                            x.clear()
                        elif k == 2:
                            for s in x.get_domain():
                                x[s] = [Fin()]
                        elif k == 3:
                            for s, t in x:
                                x.clear()
                        elif k == 4:
                            x.invert()
                        elif k == 5:
                            x.domain_restricted(ops.things[:4])
                        elif k == 6:
                            x.updated([(Fin(), Fin())])
                        elif k == 7:
                            x.add_edge(Fin(), Fin())
                            x.relimg(x.get_domain())
                        else:
                            for s in x.get_domain():
                                for t in x[s]:
                                    x.clear()
                    elif isinstance(x, C.ObjectClassifier):
                        if k < 3:
                            x.partition([Fin() for i in range(20)])
                        elif k < 6:
                            x.epartition([Fin() for i in range(20)])
                        else:
                            x.select([Fin() for i in range(20)], FinKind(), rng.choice(["==", "!="]))
                    elif isinstance(x, C.HeapView):
                        if k < 3:
                            x.relimg([x.root])
                        elif k < 5:
                            x.root = None
                        else:
                            x.heap() if rng.random() < .05 else x.numedges(x, x.root)
                    else:
                        x & ops.things[:3]
                self.check(what, do, (), lambda: what)
                if rng.random() < .3:
                    # the members go with what held them
                    gc.collect()
            what = "finalizers release " + type(x).__name__
            w.beat(what)
            x = do = None
            rng.shuffle(todo)
            while todo:
                todo.pop()
        finally:
            Fin.act = None
        w.event("finalizers")
        w.case(sig=(what, n, kind), sample=what)

    # -- iterators while the set changes

    def iterators(self, rng):
        w, ops = self.w, self.ops
        self.rng = ops.rng = rng
        S = self.S
        self.depth = 0
        Fin.act = None
        x = rng.choice((lambda: S.MutNodeSet([Fin(i) for i in range(rng.choice([2, 20, 200]))]), lambda: self.C.NodeGraph([(Fin(i), Fin(i)) for i in range(rng.choice([2, 30]))]), lambda: ops.bs(("mut",))))()
        its = [iter(x)]
        n = 0
        for i in range(rng.choice([5, 50])):
            k = rng.random()
            w.beat("iterators %s" % type(x).__name__)
            if k < .5:
                for y in range(rng.choice([1, 5])):
                    r = self.check("next %s" % type(x).__name__, lambda: next(rng.choice(its), None), (), lambda: "next of an iterator of a changed %s" % type(x).__name__)
                    if r is not None:
                        n += 1
                        # an object that is there
                        if isinstance(r, Fin):
                            r.x
                        repr(r)
            elif k < .6:
                its.append(iter(x))
            elif k < .65:
                gc.collect(0)
            else:
                try:
                    self.mutate(x, rng)
                except (TypeError, ValueError, RuntimeError):
                    pass
        w.event("iterators")
        w.event("iterated", n)
        w.case(sig=("iterators", type(x).__name__, n), sample="iterators of a changing %s" % type(x).__name__)


    # -- objects of all types there are, initialized or not

    def strange(self, rng):
        """Objects of the types that are loaded, some as __new__ leaves them."""
        if not hasattr(self, "alltypes"):
            import warnings
            warnings.simplefilter("ignore")
            import argparse, asyncio, collections, contextvars, csv, ctypes, datetime, decimal, fractions, functools, io, itertools, json, operator, random, re, select, socket, sqlite3, string, struct, threading, types, zlib, xml.etree.ElementTree, queue, array, mmap, unicodedata  # noqa
            todo, seen = [object], {object}
            while todo:
                t = todo.pop()
                try:
                    subs = type.__subclasses__(t)
                except TypeError:
                    continue
                for u in subs:
                    if u not in seen:
                        seen.add(u)
                        todo.append(u)
            self.alltypes = sorted((t for t in seen if t.__flags__ & (1 << 20) == 0 and t.__module__ not in ("vw", "vcb", "vops", "__main__", "_ctypes", "ctypes", "_struct", "_asyncio")), key=lambda t: (t.__module__, t.__qualname__))
            self.bad = {"_io", "socket", "_socket", "subprocess", "multiprocessing.connection"}
        t = rng.choice(self.alltypes)
        try:
            if t.__module__.split(".")[0] in ("threading", "_thread", "_tkinter", "mmap"):
                return t
            k = rng.randrange(3)
            if k == 0 or t.__module__ in self.bad:
                return t.__new__(t)
            if k == 1 and t.__flags__ & (1 << 10):
                s = type("S", (t,), {"__slots__": ("a", "b")} if rng.random() < .4 else {})
                return s.__new__(s)
            if t.__module__ in ("itertools", "builtins", "collections", "functools", "types", "datetime", "decimal", "re", "operator", "_collections", "_functools", "_operator"):
                if t.__name__ in ("map", "filter", "zip", "enumerate"):
                    return t.__new__(t)
                return t(*[rng.choice((1, 2, [], "a", len, (), {}, None)) for i in range(rng.randrange(4))])
        except BaseException:
            pass
        return t

    def objects(self, rng):
        w, ops, C, S = self.w, self.ops, self.C, self.S
        self.rng = ops.rng = rng
        T.reset()
        Fin.act = None
        xs = [self.strange(rng) for i in range(rng.choice([1, 5, 20]))]
        for i in range(3):
            xs.append(self.junk(1))
        h = C.HeapView(xs, ops.heapdefs)
        if rng.random() < .3:
            h.limitframe = sys._getframe()
        names = [type(x).__name__ if not isinstance(x, type) else "type " + x.__name__ for x in xs]
        k = rng.randrange(9)
        w.beat("objects %d %s" % (k, names))
        g = C.NodeGraph()

        def do():
            if k == 0:
                for x in xs:
                    w.beat("objects relimg %s" % type(x).__name__)
                    h.relimg([x])
            elif k == 1:
                for x in xs:
                    w.beat("objects indisize %s" % type(x).__name__)
                    h.indisize_sum([x])
            elif k == 2:
                for x in xs:
                    for y in [*h.relimg([x])][:20]:
                        w.beat("objects relate %s %s" % (type(x).__name__, type(y).__name__))
                        h.relate(x, y)
                        h.numedges(x, y)
            elif k == 3:
                s = h.reachable(S.immnodeset([xs]), S.immnodeset([sys.modules, type])) if rng.random() < .5 else h.relimg(xs)
                h.update_referrers_completely(g) if rng.random() < .02 else None
                h.update_referrers(g, s)
                for x in s:
                    g[x]
            elif k == 4:
                h.shpathstep(g, S.immnodeset([xs]), S.immnodeset(xs)) if hasattr(h, "shpathstep") else None
            elif k == 5:
                for c in (h.cli_type(), h.cli_indisize({}), h.cli_id({}), h.cli_dictof(C.NodeGraph(), h.cli_type(), 0, 1) if rng.random() < .1 else h.cli_none()):
                    c.partition(xs)
            elif k == 6:
                h.update_dictowners(g) if rng.random() < .1 else None
                h.cli_inrel(C.NodeGraph([(x, xs) for x in xs]), {}, {}).partition(xs)
            elif k == 7:
                for x in xs:
                    w.beat("objects traverse %s" % type(x).__name__)
                    h.root = x
                    if type(x) is not type and not isinstance(x, (type, types.ModuleType, types.FunctionType, types.FrameType, types.GeneratorType)):
                        h.cli_type().partition(h) if rng.random() < .02 else h.relimg([x])
            else:
                a = S.MutNodeSet(xs)
                b = S.immnodeset(xs)
                (a | b) & xs
                list(a)
                C.NodeGraph([(x, y) for x in xs for y in xs]).invert()
        self.check("objects", do, (), lambda: "%d %s" % (k, names))
        w.event("objects")
        w.case(sig=("objects", k, tuple(names)), sample="objects %s" % names[:3])


def main(w):
    rng = w.rng
    m = Memory(w)
    gc.collect()
    gc.freeze()
    sys.setrecursionlimit(400)
    # Errors of finalizers
    sys.unraisablehook = lambda u: w.event("unraisable") if not isinstance(u.exc_value, SystemError) else w.violate("system-error:unraisable", repr(u.exc_value))
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        x = rng.random()
        if w.args.get("only"):
            getattr(m, w.args["only"])(rng)
            continue
        (m.call if x < .3 else m.module if x < .38 else m.objects if x < .45 else m.within if x < .75 else m.finalizers if x < .93 else m.iterators)(rng)
        if i % 100 == 0:
            gc.collect()


if __name__ == "__main__":
    vw.main(main)
