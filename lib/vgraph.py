"""Random closed object graphs of many types, and an oracle for their references
that does not use the code under test (gc.get_referents plus attribute access)."""
import collections
import contextvars
import enum
import functools
import gc
import itertools
import types
import warnings
import weakref

MANAGED_DICT = 1 << 4
HEAPTYPE = 1 << 9
FrameType = types.FrameType
CodeType = types.CodeType
# Attributes of code objects that are computed when they are asked for, and kept.
# Code objects of graphs that were asked have the names in their own name.
COMPUTED = ("co_varnames", "co_cellvars", "co_freevars", "co_code")
ProxyType = types.MappingProxyType


# The constructor is not a function of this module: a Leaf must not lead to it.
_ns = {"__builtins__": {}}
exec("def __init__(self, label):\n    self.label = label\n", _ns)
Leaf = type("Leaf", (), {"__slots__": ("label", "__weakref__"), "__init__": _ns["__init__"], "__module__": "vgraph"})


SRC = '''
def mkfun(a, b, c):
    def f(x=a, *, k=b):
        return a, c
    return f
def mkgen(a, b):
    def gen(p, q):
        z = a
        yield p
        yield b
    return gen(a, b)
def mklambda(a):
    return lambda *args: a
def mkgenexpr(s):
    return (x for x in s)
def mkgen2(a):
    def gen(seq):
        for x in seq:
            yield x
    return gen([a, a])
def eq(s, o):
    return True
def hsh(s):
    return 7
def km(self):
    return 1
def ks():
    return 2
def kc(cls):
    return 3
'''
_CODE = compile(SRC, "<vgraph>", "exec")


def ask_all(code):
    # (the code objects are shared by all graphs)
    for n in COMPUTED:
        getattr(code, n)
    for x in code.co_consts:
        if isinstance(x, CodeType):
            ask_all(x)


ask_all(_CODE)


def small_globals(name):
    g = {"__builtins__": {}, "__name__": name}
    exec(_CODE, g)
    g["K"] = type("K", (), {"__module__": name, "m": g["km"], "s": staticmethod(g["ks"]), "c": classmethod(g["kc"]),
                            "p": property(g["km"])})
    return g


def seal_modules():
    """Modules that C types refer to must not lead to the rest of the process."""
    import sys
    for m in (itertools, "_functools", "_collections", "_contextvars", "_types"):
        if isinstance(m, str):
            m = sys.modules.get(m)
        if m is not None:
            m.__spec__ = m.__loader__ = None


class GraphClasses:
    """A fresh family of classes."""

    def __init__(self, rng, tag, g):
        ns = {"__module__": tag}
        self.Plain = type("Plain", (), dict(ns))
        self.Slots = type("Slots", (), dict(ns, __slots__=("a", "b", "c")))
        self.SubSlots = type("SubSlots", (self.Slots,), dict(ns, __slots__=("d", "e")))
        self.SlotsDict = type("SlotsDict", (self.Slots,), dict(ns, __slots__=("f", "__dict__", "__weakref__")))
        self.SubPlain = type("SubPlain", (self.Plain,), dict(ns))
        self.MyList = type("MyList", (list,), dict(ns))
        self.MyDict = type("MyDict", (dict,), dict(ns))
        self.MySet = type("MySet", (set,), dict(ns))
        self.MyTuple = type("MyTuple", (tuple,), dict(ns))
        self.MyFrozen = type("MyFrozen", (frozenset,), dict(ns))
        self.MyStr = type("MyStr", (str,), dict(ns))
        self.MyInt = type("MyInt", (int,), dict(ns))
        self.MyExc = type("MyExc", (Exception,), dict(ns))
        self.Mangled = type("Mangled", (), dict(ns, __slots__=("_Mangled__x", "y")))
        self.SlotList = type("SlotList", (list,), dict(ns, __slots__=("s1", "s2")))
        self.Meta = type("Meta", (type,), dict(ns))
        self.WithMeta = self.Meta("WithMeta", (), dict(ns))
        self.MyModule = type("MyModule", (types.ModuleType,), dict(ns))
        self.Eq = type("Eq", (), dict(ns, __eq__=g["eq"], __hash__=g["hsh"]))
        self.Deque = type("Deque", (collections.deque,), dict(ns))
        self.all = [v for v in vars(self).values() if isinstance(v, type)]


class Graph:
    """objs: nodes; root: the root container (a list, dict, tuple or instance)."""

    def __init__(self, rng, n=30, tag="vg", exotic=True, nodesets=None, nodegraphs=None, functions=True):
        self.rng = rng
        self.tag = tag
        self.g = small_globals(tag)
        self.cls = GraphClasses(rng, tag, self.g)
        self.exotic = exotic
        self.nodesets = nodesets
        self.nodegraphs = nodegraphs
        self.functions = functions
        self.objs = []
        self.kinds = []
        for i in range(n):
            self.add()
        self.wire(int(n * rng.choice([0.5, 1.0, 1.5, 2.5])))
        self.mkroot()

    # -- creation
    def pick(self):
        return self.rng.choice(self.objs) if self.objs else None

    def picks(self, k):
        return [self.pick() for _ in range(self.rng.randrange(k + 1)) if self.objs]

    SIMPLE = ("leaf", "list", "list", "dict", "dict", "plain", "plain", "slots", "subslots", "slotsdict", "subplain",
              "tuple", "tuple", "set", "frozenset", "mylist", "mydict", "myset", "mytuple", "cell", "namespace", "str", "int",
              "deque", "eq", "slotlist", "mangled", "exc", "withmeta", "float", "bytes")
    FUN = ("fun", "lambda", "method", "gen", "frame", "gen2", "class", "class2", "module", "mymodule", "builtinmeth", "code")
    EXOTIC = ("partial", "property", "static", "classm", "slice", "listiter", "dictiter", "proxy", "keysview", "itemsview",
              "weakref", "weakproxy", "defaultdict", "ordered", "enumerate", "zip", "map", "chain", "count", "cycle", "repeat", "memoryview",
              "super", "generic", "context", "exc2", "mystr", "myint", "myfrozen", "mydeque", "tee", "lru", "simplegen", "reversed",
              "filter", "bytearray", "object", "complex", "range", "starmap", "groupby", "nodeset", "immnodeset", "nodegraph", "methwrap",
              "traceless")

    def add(self, kind=None):
        rng = self.rng
        if kind is None:
            pool = self.SIMPLE * 2
            if self.functions:
                pool += self.FUN
            if self.exotic:
                pool += self.EXOTIC
            kind = rng.choice(pool)
        c = self.cls
        a, b, d = self.pick(), self.pick(), self.pick()
        h = [x for x in self.picks(4) if self.hashable(x)]
        i = len(self.objs)
        if kind == "leaf":
            o = Leaf("%s%d" % (self.tag, i))
        elif kind == "list":
            o = self.picks(4)
        elif kind == "dict":
            o = {}
            for x in self.picks(4):
                o["k%d" % rng.randrange(1000)] = x
            for x in h:
                o[x] = self.pick()
        elif kind == "plain":
            o = c.Plain()
        elif kind == "subplain":
            o = c.SubPlain()
        elif kind == "slots":
            o = c.Slots()
        elif kind == "subslots":
            o = c.SubSlots()
        elif kind == "slotsdict":
            o = c.SlotsDict()
        elif kind == "withmeta":
            o = c.WithMeta()
        elif kind == "tuple":
            o = tuple(self.picks(4)) + (i,)
        elif kind == "set":
            o = set(h)
        elif kind == "frozenset":
            o = frozenset(h + [("f", i)])
        elif kind == "mylist":
            o = c.MyList(self.picks(3))
        elif kind == "slotlist":
            o = c.SlotList(self.picks(3))
        elif kind == "mydict":
            o = c.MyDict((("k%d" % j, x) for j, x in enumerate(self.picks(3))))
        elif kind == "myset":
            o = c.MySet(h)
        elif kind == "mytuple":
            o = c.MyTuple(self.picks(3))
        elif kind == "myfrozen":
            o = c.MyFrozen(h)
        elif kind == "mystr":
            o = c.MyStr("s%d" % i)
        elif kind == "myint":
            o = c.MyInt(i + 10 ** 6)
        elif kind == "mydeque":
            o = c.Deque(self.picks(3))
        elif kind == "cell":
            o = types.CellType(a) if self.objs else types.CellType()
        elif kind == "namespace":
            o = types.SimpleNamespace(x=a)
        elif kind == "str":
            o = "str-%s-%d" % (self.tag, i) * rng.choice([1, 1, 50])
        elif kind == "bytes":
            o = b"b%d" % i * 10
        elif kind == "bytearray":
            o = bytearray(b"x" * i)
        elif kind == "int":
            o = 10 ** 9 + i * 10 ** rng.choice([0, 0, 30])
        elif kind == "float":
            o = 1.5 + i
        elif kind == "complex":
            o = complex(i, 1.5)
        elif kind == "range":
            o = range(10 ** 10, 10 ** 10 + i)
        elif kind == "object":
            o = object()
        elif kind == "deque":
            o = collections.deque(self.picks(3))
        elif kind == "eq":
            o = c.Eq()
        elif kind == "mangled":
            o = c.Mangled()
        elif kind == "exc":
            o = c.MyExc("e%d" % i, a)
        elif kind == "exc2":
            o = ValueError(a, b)
            o.__cause__ = c.MyExc(d)
            o.__context__ = KeyError("x")
        elif kind == "traceless":
            o = OSError(2, "m%d" % i, "fn%d" % i)
        elif kind == "fun":
            o = self.g["mkfun"](a, b, d)
        elif kind == "lambda":
            o = self.g["mklambda"](a)
        elif kind == "method":
            k = self.g["K"]()
            k.v = a
            o = rng.choice([k.m, k.c, k.s])
        elif kind == "gen":
            o = self.g["mkgen"](a, b)
            next(o)
        elif kind == "gen2":
            o = self.g["mkgen2"](a)
            next(o)
        elif kind == "frame":
            o = self.g["mkgen"](a, b)
            next(o)
            f = o.gi_frame
            f.f_locals
            # the generator is alive too, or its frame is cleared
            self.objs.append(f)
            self.kinds.append("frame0")
        elif kind == "code":
            # (of an outer function, and of those it makes, which have free variables)
            o = self.g[rng.choice(["mkfun", "mkgen"])].__code__
            if rng.random() < .6:
                o = [x for x in o.co_consts if type(x) is CodeType][0]
            if rng.random() < .8:
                # what is computed when it is asked for, and then kept
                asked = [n for n in COMPUTED if rng.random() < .6]
                o = o.replace(co_name=" ".join(["asked"] + asked), co_consts=(*o.co_consts, "%s_const%d" % (self.tag, i)))
                for n in asked:
                    getattr(o, n)
        elif kind == "class":
            base = rng.choice([c.Plain, c.SubPlain, c.MyList, object])
            o = type("Dyn%d" % i, (base,), {"attr": a, "__module__": self.tag})
        elif kind == "class2":
            o = c.Meta("DynM%d" % i, (), {"attr": a, "__slots__": ("q",), "__module__": self.tag})
        elif kind == "module":
            o = types.ModuleType("%s_mod%d" % (self.tag, i))
            o.x = a
        elif kind == "mymodule":
            o = c.MyModule("%s_mm%d" % (self.tag, i))
            o.x = a
        elif kind == "builtinmeth":
            o = rng.choice([[a].append, {"k": a}.get, {1}.add])
        elif kind == "methwrap":
            o = [a].__len__
        elif kind == "partial":
            o = functools.partial(self.g["mklambda"], a, kw=b)
        elif kind == "property":
            o = property(self.g["mklambda"](a), None, None, "doc%d" % i)
        elif kind == "static":
            o = staticmethod(self.g["mklambda"](a))
        elif kind == "classm":
            o = classmethod(self.g["mklambda"](a))
        elif kind == "slice":
            o = slice(a, b, d)
        elif kind == "listiter":
            o = iter([a, b])
        elif kind == "reversed":
            o = reversed([a, b])
        elif kind == "dictiter":
            o = iter({"k%d" % i: a})
        elif kind == "proxy":
            o = ProxyType({"k%d" % i: a})
        elif kind == "keysview":
            o = {"k%d" % i: a}.keys()
        elif kind == "itemsview":
            o = {"k%d" % i: a}.items()
        elif kind in ("weakref", "weakproxy"):
            t = [x for x in self.objs if type(x) in (c.Plain, c.SubPlain, c.SlotsDict, Leaf)]
            t = rng.choice(t) if t else c.Plain()
            if kind == "weakref":
                o = weakref.ref(t, self.g["mklambda"](a))
                self.keep = getattr(self, "keep", []) + [t]
            else:
                o = [a]
        elif kind == "defaultdict":
            o = collections.defaultdict(self.g["mklambda"](a), x=b)
        elif kind == "ordered":
            o = collections.OrderedDict([("k%d" % i, a), ("z", b)])
        elif kind == "enumerate":
            o = enumerate([a, b])
        elif kind == "zip":
            o = zip([a], (b,))
        elif kind == "map":
            o = map(self.g["mklambda"](a), [b])
        elif kind == "filter":
            o = filter(self.g["mklambda"](a), [b])
        elif kind == "starmap":
            o = itertools.starmap(self.g["mklambda"](a), [b])
        elif kind == "groupby":
            o = itertools.groupby([a, b])
        elif kind == "chain":
            o = itertools.chain([a], [b])
        elif kind == "count":
            o = itertools.count(10 ** 20)
        elif kind == "cycle":
            o = itertools.cycle([a, b])
            next(o)
        elif kind == "tee":
            o = itertools.tee([a, b])[0]
        elif kind == "repeat":
            o = itertools.repeat(a)
        elif kind == "lru":
            o = functools._lru_cache_wrapper(self.g["mklambda"](a), 5, False, self.cls.Plain)
        elif kind == "simplegen":
            o = self.g["mkgenexpr"]([a, b])
        elif kind == "memoryview":
            o = memoryview(bytearray(b"abc"))
        elif kind == "super":
            o = super(c.SubPlain, c.SubPlain())
        elif kind == "generic":
            o = list[c.Plain]
        elif kind == "context":
            v = contextvars.ContextVar("v%d" % i)
            ctx = contextvars.Context()
            ctx.run(v.set, a)
            o = [v, ctx]
        elif kind == "nodeset" and self.nodesets:
            o = self.nodesets[0](self.picks(4))
        elif kind == "immnodeset" and self.nodesets:
            o = self.nodesets[1](self.picks(4))
        elif kind == "nodegraph" and self.nodegraphs:
            o = self.nodegraphs([(x, y) for x, y in zip(self.picks(4), self.picks(4))])
        else:
            o = [a]
        self.objs.append(o)
        self.kinds.append(kind)
        return o

    def hashable(self, x):
        # things hashed by identity or value without recursion
        return type(x) in (str, int, float, bytes, Leaf, complex, object, types.FunctionType, self.cls.Plain, self.cls.SubPlain,
                           self.cls.Slots, self.cls.SubSlots, self.cls.Eq, self.cls.MyStr, self.cls.MyInt, types.BuiltinFunctionType)

    # -- edges
    def wire(self, k):
        for _ in range(k):
            self.link(self.pick(), self.pick())

    def link(self, s, t):
        """Add a reference from s to t if its type allows it; returns an undo function or None."""
        rng = self.rng
        c = self.cls
        ty = type(s)
        if isinstance(s, list):
            if isinstance(s, (c.MyList, c.SlotList)) and rng.random() < 0.5:
                return self.setattr_(s, rng.choice(["s1", "s2"]) if ty is c.SlotList else "attr%d" % rng.randrange(5), t)
            s.append(t)

            def undo():
                for i in range(len(s) - 1, -1, -1):
                    if s[i] is t:
                        del s[i]
                        return
            return undo
        if isinstance(s, dict) and ty is not collections.OrderedDict:
            if ty is c.MyDict and rng.random() < 0.4:
                return self.setattr_(s, "attr%d" % rng.randrange(5), t)
            if self.hashable(t) and rng.random() < 0.4:
                if t not in s:
                    s[t] = None
                    return lambda: s.pop(t, None)
                return None
            k = "k%d" % rng.randrange(1000)
            if k in s:
                return None
            s[k] = t
            return lambda: s.pop(k, None)
        if isinstance(s, set):
            if ty is c.MySet and rng.random() < 0.4:
                return self.setattr_(s, "attr%d" % rng.randrange(5), t)
            if self.hashable(t) and t not in s:
                s.add(t)
                return lambda: s.discard(t)
            return None
        if isinstance(s, collections.deque):
            s.append(t)

            def undo():
                for i in range(len(s) - 1, -1, -1):
                    if s[i] is t:
                        del s[i]
                        return
            return undo
        if ty is types.CellType:
            old = s.cell_contents if gc.get_referents(s) else None
            s.cell_contents = t
            return lambda: setattr(s, "cell_contents", old)
        if ty is c.Slots:
            return self.setattr_(s, rng.choice("abc"), t)
        if ty is c.SubSlots:
            return self.setattr_(s, rng.choice("abcde"), t)
        if ty is c.Mangled:
            return self.setattr_(s, rng.choice(["_Mangled__x", "y"]), t)
        if ty is c.SlotsDict:
            return self.setattr_(s, rng.choice(["a", "f", "g%d" % rng.randrange(4)]), t)
        if ty in (c.Plain, c.SubPlain, c.Eq, c.WithMeta, c.MyExc, types.SimpleNamespace, c.MyStr, c.MyInt, c.MyTuple, c.MyFrozen,
                  c.MyModule, types.ModuleType) or isinstance(s, type) and self.tag == s.__module__:
            return self.setattr_(s, "attr%d" % rng.randrange(6), t)
        if ty is types.FunctionType and s.__globals__ is self.g:
            return self.setattr_(s, rng.choice(["fa", "fb"]), t)
        return None

    def setattr_(self, s, name, t):
        miss = object()
        try:
            old = getattr(s, name, miss)
            if old is not miss and isinstance(s, type) and name not in s.__dict__:
                old = miss
            setattr(s, name, t)
        except (AttributeError, TypeError):
            return None
        if old is miss:
            def undo():
                try:
                    delattr(s, name)
                except AttributeError:
                    pass
            return undo
        return lambda: setattr(s, name, old)

    def mkroot(self):
        rng = self.rng
        top = self.picks(max(2, len(self.objs) // 4)) or [self.objs[0]]
        k = rng.randrange(4)
        if k == 0:
            self.root = list(top)
        elif k == 1:
            self.root = tuple(top)
        elif k == 2:
            self.root = {"r%d" % i: x for i, x in enumerate(top)}
        else:
            r = self.cls.Plain()
            for i, x in enumerate(top):
                setattr(r, "r%d" % i, x)
            self.root = r


def real_dict(tp):
    return gc.get_referents(type.__dict__["__dict__"].__get__(tp))[0]


class Refs:
    """The reference oracle.

    edges(o) -> (must, may): targets the object certainly refers to, and further
    targets that are allowed.  For most types both agree ("exact")."""

    def __init__(self, hidden=()):
        self.hidden = hidden

    def edges(self, o):
        t = type(o)
        if isinstance(o, type):
            return self.type_edges(o)
        if t is FrameType:
            return self.frame_edges(o)
        if t is CodeType:
            must = [o.co_consts, o.co_names, o.co_filename, o.co_name, o.co_qualname, o.co_linetable, o.co_exceptiontable]
            if o.co_name.startswith("asked"):
                must += [getattr(o, n) for n in o.co_name.split()[1:]]
            return must, "str bytes tuple weakref list"
        if t.__flags__ & MANAGED_DICT:
            object.__getattribute__(o, "__dict__")
        mod = t.__module__
        if mod == "guppy.sets.setsc":
            r = list(o)
            tag = getattr(o, "_hiding_tag_", None)
            if tag is not None:
                r.append(tag)
            return r, None
        if mod == "guppy.heapy.heapyc" and t.__name__ == "NodeGraph":
            r = []
            for a, b in o:
                r.append(a)
                r.append(b)
            return r, "list NoneType"
        # Both the object's own traverse function decides; it is CPython's.
        return gc.get_referents(o), None

    def type_edges(self, o):
        must = [real_dict(o), o.__mro__, o.__bases__]
        if o.__base__ is not None:
            must.append(o.__base__)
        if o.__flags__ & HEAPTYPE:
            must += gc.get_referents(o)
            if type(o).__flags__ & HEAPTYPE:
                must.append(type(o))
        return must, "str tuple dict list"

    def frame_edges(self, o):
        must = [o.f_code, o.f_globals, o.f_builtins]
        if o.f_back is not None:
            must.append(o.f_back)
        if o.f_trace is not None:
            must.append(o.f_trace)
        co = o.f_code
        cells = set(co.co_cellvars) | set(co.co_freevars)
        loc = o.f_locals
        for k, v in loc.items():
            if k in cells:
                continue
            must.append(v)
        return must, "cell function dict"

    def check_edges(self, o, got):
        """Compare the reported referents of one object with the oracle; returns a message or None."""
        must, may = self.edges(o)
        gotids = {id(x) for x in got}
        mustids = {id(x): x for x in must}
        miss = [x for i, x in mustids.items() if i not in gotids]
        extra = [x for x in got if id(x) not in mustids]
        if miss:
            return "referents of a %s lack a %s" % (type(o).__name__, "/".join(sorted({type(x).__name__ for x in miss})))
        if extra:
            if may is None:
                return "referents of a %s include an unrelated %s" % (type(o).__name__, "/".join(sorted({type(x).__name__ for x in extra})))
            ok = may.split()
            bad = [x for x in extra if type(x).__name__ not in ok and not isinstance(x, weakref.ref)]
            if bad:
                return "referents of a %s include an unrelated %s" % (type(o).__name__, "/".join(sorted({type(x).__name__ for x in bad})))
        return None


def closure(root, edges, avoid=(), limit=200000):
    """Objects reachable from the objects in root avoiding those whose id is in avoid; dict id -> object."""
    seen = {}
    todo = []
    for r in root:
        if id(r) not in avoid and id(r) not in seen:
            seen[id(r)] = r
            todo.append(r)
    while todo:
        o = todo.pop()
        for x in edges(o):
            i = id(x)
            if i not in seen and i not in avoid:
                seen[i] = x
                todo.append(x)
                if len(seen) > limit:
                    raise RuntimeError("closure too big")
    return seen


def describe(o):
    try:
        t = type(o)
        if t in (str, int, float, bytes):
            return "%s %.40r" % (t.__name__, o)
        return "%s at %#x" % (t.__name__, id(o))
    except Exception:
        return "?"


warnings.simplefilter("ignore")
