"""C05: what is printed for a symbolic kind or equivalence relation denotes it."""
import gc
import os
import sys
import types
import tracemalloc

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vw
from vheap import Env, ids
from vgraph import describe
from w_sets import Sampler

NAMES = ["K", "k_1", "a b", "x.y", ".", "at", "q>", "<z", "type", "it's", 'say "x"', "b\\n", "n\nl", "\u00e9t\u00e9", "\U0001f600", "<type a.b at 0x10>", " at ", "", "%s", "{}", "0x1", ") | ("]
MODULES = ["__main__", "m", "a.b", "a b", "", "it's", None, 3, "\u00fc", "<locals>", " at 0x1", "builtins"]


def odd_class(rng):
    base = rng.choice([(), (), (dict,), (list,), (Exception,), (int,)])
    d = {"__module__": rng.choice(MODULES)}
    if not base and rng.random() < 0.3:
        d["__slots__"] = ("a", "__dict__")
    return type(rng.choice(NAMES), base, d)


class Gen:
    def __init__(self, w, e, sm):
        self.w, self.e, self.hp, self.rng, self.sm = w, e, e.hp, e.rng, sm

    def fresh(self):
        rng = self.rng
        g = self.sm.new()
        self.classes = [odd_class(rng) for _ in range(rng.randrange(1, 6))]
        self.insts = []
        for c in self.classes:
            for _ in range(rng.randrange(1, 3)):
                o = c()
                if hasattr(o, "__dict__"):
                    o.x = rng.choice(self.sm.g.objs)
                self.insts.append(o)
        self.mods = [types.ModuleType(rng.choice(["plain", "a b", "dotted.name", "q'", "", "sys"])) for _ in range(2)]
        hold = [self.classes, self.insts, self.mods]
        import __main__
        __main__.__dict__["c05_hold"] = hold
        self.objs = list(ids(self.sm.draw(25) + self.insts + [x.__dict__ for x in self.insts if hasattr(x, "__dict__")] + self.mods).values())
        gc.collect()

    def types_of(self):
        rng = self.rng
        return rng.choice(self.classes) if rng.random() < 0.6 else type(rng.choice(self.objs))

    def er(self, depth=0):
        """An equivalence relation."""
        hp, rng = self.hp, self.rng
        r = rng.randrange(10)
        if r < 6 or depth > 1:
            n = rng.choice(["Type", "Clodo", "Size", "Id", "Unity", "Module", "Rcs", "Via"])
            return getattr(hp, n), n
        if r == 6:
            a, n = self.er(depth + 1)
            b, m = self.er(depth + 1)
            return a & b, "%s&%s" % (n, m)
        if r == 7:
            n = rng.choice(["Type", "Clodo", "Size", "Id"])
            return getattr(hp, n).dictof, n + ".dictof"
        if r == 8:
            n = rng.choice(["Type", "Clodo", "Size"])
            x = getattr(hp, n)
            if rng.random() < 0.3:
                return x.refdby.refdby, n + ".refdby.refdby"
            return x.refdby, n + ".refdby"
        ks = [self.atom(depth + 1) for _ in range(rng.randrange(1, 4))]
        ks = [k for k in ks if classed(k[0])]
        if not ks:
            return hp.Type, "Type"
        return hp.findex(*[k for k, n in ks]), "findex(%s)" % ",".join(n for k, n in ks)

    def atom(self, depth=0):
        """A kind and a description of how it was made."""
        hp, rng = self.hp, self.rng
        r = rng.randrange(15)
        t = self.types_of()
        if r == 0:
            return hp.Type(t), "Type"
        if r == 1:
            return (hp.Clodo(t), "Clodo") if t is not dict else (hp.Clodo(dictof=()), "noowner")
        if r == 2:
            return hp.Clodo(dictof=t), "dictof"
        if r == 3:
            return hp.Clodo(dictof=()), "noowner"
        if r == 4:
            return hp.Size(rng.randrange(0, 200) * 8), "Size"
        if r == 5:
            return hp.Id(id(rng.choice(self.classes + self.insts))), "Id"
        if r == 6:
            return hp.Module(rng.choice(["sys", "os", "gc", "guppy.heapy"])), "Module"
        if r == 7:
            n = rng.randrange(4)
            ks = [hp.Clodo(self.types_of_nodict()) for _ in range(n)]
            return hp.Rcs(*ks), "Rcs%d" % n
        if r == 8:
            sk = hp.Type.sokind(t)
            for _ in range(rng.randrange(3)):
                sk = sk(self.types_of())
            if rng.random() < 0.2:
                return hp.Type.refdby.sokind(sk).refdby, "sokind.sokind"
            return sk.refdby, "sokind"
        if r == 9:
            rels = rng.sample(["[0]", "[12]", "['key']", '["it\'s"]', "[None]", "[b'x']", "[(1, 2)]", "[1.5]", ".attr", "._a1", ".f_locals['x']",
                               ".f_locals ['y']", ".keys()[3]", ".__dict__.keys()[0]", "->co_x", "->f_valuestack[2]", "['a]']", "['[']", "['']", "[True]"], rng.randrange(4))
            return hp.Via(*rels), "Via%s" % sorted(rels)
        if r == 10 and not depth:
            return hp.Prod(*rng.choice([(), ("f.py",), ("f.py", 3), ("a b's.py", 10), (None, 3), ("", 0), ("f.py", None)])), "Prod"
        if r == 11:
            return getattr(hp, rng.choice(["Nothing", "Anything"])), "const"
        if r == 12:
            c = rng.choice(["<", "<=", ">", ">=", "==", "!="])
            return rng.choice([lambda: hp.Size(rng.randrange(9) * 8), lambda: hp.Type(t), lambda: hp.Type(t) if depth else hp.Prod("f.py", 3)])().alt(c), "alt" + c
        # what a partition gives
        er, n = self.er(depth + 1)
        S = self.sm.drawset(rng.sample(self.objs, min(len(self.objs), 12)))
        P = S.by(er)
        i = rng.randrange(len(list(P.partition.get_sets())))
        return P[i].kind, "kind by " + n

    def types_of_nodict(self):
        while True:
            t = self.types_of()
            if t is not dict:
                return t

    def kind(self):
        rng, hp = self.rng, self.hp
        k, n = self.atom()
        # (Normal forms grow fast.)
        ops = 0
        while rng.random() < 0.4 and ops < 4:
            op = rng.choice("&|-^~" if not ops else "&|-~")
            ops += 1
            if op == "~":
                k, n = ~k, "~" + n
            else:
                b, m = self.atom()
                k = {"&": lambda: k & b, "|": lambda: k | b, "-": lambda: k - b, "^": lambda: k ^ b}[op]()
                n = "(%s%s%s)" % (n, op, m)
        return k, n


def classed(k):
    if type(k).__name__ != "Kind":
        return False
    try:
        return k.get_ckc()[2] in ("==", "!=", "<", "<=", ">", ">=") and k.fam.__class__.__name__ != "AndFamily"
    except Exception:
        return False


def truth_ids(S):
    return ids(S.nodes).keys()


def run(w):
    e = Env(w)
    hp, rng = e.hp, e.rng
    # What is given by address is looked for among what the collector tracks.
    gc.unfreeze()
    import __main__
    name = rng.choice(["c05hp", "h", "_x1"])
    if w.idx % 2:
        import guppy
        e.hp = hp = guppy.hpy()
        __main__.__dict__[name] = hp
        space = {name: hp}
        prefix = name + "."
    else:
        space = {"hpy": lambda: hp}
        prefix = "hpy()."
    sm = Sampler(e)
    g = Gen(w, e, sm)
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        g.fresh()
        pool = hp.iso(*g.objs)
        heap = set()

        def here(r):
            # What the text names by address has to exist in the heap.
            if not heap:
                heap.update(id(x) for x in gc.get_objects())
                heap.update(id(x) for x in hp.View.hv.static_types)
            return all(a in heap for a in addresses(r))
        for _ in range(rng.randrange(6, 14)):
            w.beat("C05 case %d" % i)
            if rng.random() < 0.25:
                er, n = g.er()
                w.beat("C05 case %d: %s" % (i, n))
                check_er(w, e, er, n, space, prefix, pool, here)
                continue
            k, n = g.kind()
            w.beat("C05 case %d: %s" % (i, n))
            if type(k).__name__ in ("IdentitySetMulti", "IdentitySetSingleton") or "IDENTITYSET" in atoms(k):
                continue
            r = repr(k)
            for s, what in ((str(k), "str"), (k.brief, "brief")):
                if not isinstance(s, str):
                    w.violate("text:" + what, "%s of %s is %r" % (what, n, s))
                elif s.count("(") != s.count(")") and not any(")" in c.__name__ for c in g.classes):
                    w.violate("paren:" + what, "%s of %s has unbalanced parentheses: %s" % (what, n, s[:1000]))
            w.event("kind")
            if not here(r) or "[<" in r:
                # (A key that has no evaluable text of its own.)
                w.event("unreachable")
                continue
            if not r.lstrip("~(").startswith(prefix):
                w.violate("prefix", "%s is shown as %s" % (n, r[:300]))
                continue
            if len(r) > 1500:
                # Comparing sets of sets of kinds takes very long.
                w.event("long")
                continue
            w.beat("C05 case %d: %s: %s" % (i, n, r))
            try:
                k2 = eval(r, dict(space))
            except Exception as x:
                w.violate("eval:%s" % shape(n), "%s is shown as %s, which gives %s: %s" % (n, r[:1500], type(x).__name__, str(x)[:300]))
                continue
            w.event("evaluated")
            w.case(shape(n))
            # Each call of findex makes a new relation.
            # The kinds of a combined relation are not simplified, nor are all
            # expressions with Anything, so equality may not be recognized.
            same = "findex" not in n and not ("by " in n and "&" in n) and not ("Anything" in r and k is not hp.Anything)
            if same and (not (k2 == k and k == k2) or k2 != k):
                w.violate("equal:%s" % shape(n), "%s is shown as %s, which gives a different kind" % (n, r[:1500]))
                continue
            if same and (not (k <= k2 and k >= k2) or k < k2 or k > k2):
                w.violate("order:%s" % shape(n), "%s and the kind its text %s gives are equal, but ordered" % (n, r[:1500]))
            simple = same and k != hp.Anything
            if simple and hash(k2) != hash(k):
                w.violate("hash:%s" % shape(n), "%s and the kind its text %s gives are equal, but hash differently" % (n, r[:1500]))
            w.event("equal")
            if repr(k2) != r:
                k3 = eval(repr(k2), dict(space))
                if same and k3 != k:
                    w.violate("again:%s" % shape(n), "%s: the text of the kind given by %s gives a different kind" % (n, r[:1500]))
            if ".Prod" not in r:
                a, b = truth_ids(pool & k), truth_ids(pool & k2)
                if a != b:
                    w.violate("select:%s" % shape(n), "%s selects %d objects, the kind its text gives %d" % (n, len(a), len(b)))
                w.event("selected")
            # in another order
            if simple and k.fam.opname in ("OR", "AND") and len(k.arg) > 1:
                args = list(k.arg)
                rng.shuffle(args)
                m = args[0]
                for x in args[1:]:
                    m = m | x if k.fam.opname == "OR" else m & x
                if m == k:
                    w.event("reordered")
                    if hash(m) != hash(k):
                        w.violate("hash:reordered", "%s hashes differently when its parts are given in another order" % n)
                    if {k: 1}.get(m) != 1:
                        w.violate("hash:reordered", "%s is not found in a dict when its parts are given in another order" % n)
        __main__.__dict__.pop("c05_hold", None)
        e.done()


def addresses(r):
    import re
    return [int(x, 16) for x in re.findall(r" at (0x[0-9a-f]+)>['\"]\)", r)] + [int(x, 16) for x in re.findall(r"(?<!\w)(?:Id|Idset)\((0x[0-9a-f]+)\)", r)]


def atoms(k, out=None):
    out = set() if out is None else out
    op = getattr(k.fam, "opname", "?")
    if "IdentitySet" in type(k).__name__:
        out.add("IDENTITYSET")
    elif op in ("OR", "AND"):
        for x in k.arg:
            atoms(x, out)
    elif op == "INVERT":
        atoms(k.arg, out)
    elif hasattr(k, "arg") and hasattr(k.arg, "fam"):
        atoms(k.arg, out)
    return out


def shape(n):
    return n if len(n) < 60 else n[:57] + "..."


def check_er(w, e, er, n, space, prefix, pool, here):
    r = repr(er)
    if not here(r) or "[<" in r:
        w.event("unreachable")
        return
    if not r.lstrip("(").startswith(prefix):
        w.violate("prefix", "%s is shown as %s" % (n, r[:300]))
        return
    try:
        er2 = eval(r, dict(space))
    except Exception as x:
        w.violate("eval-er:%s" % shape(n), "%s is shown as %s, which gives %s: %s" % (n, r[:1500], type(x).__name__, str(x)[:300]))
        return
    w.event("er")
    w.case("er " + shape(n))
    a = {frozenset(truth_ids(x)) for x in pool.by(er).partition.get_sets()}
    b = {frozenset(truth_ids(x)) for x in pool.by(er2).partition.get_sets()}
    if a != b:
        w.violate("partition:%s" % shape(n), "%s and what its text %s gives partition a set differently" % (n, r[:1500]))


if __name__ == "__main__":
    vw.main(run)
