"""Monitors for S01/S02/S03: every operation on real bit sets is mirrored on a
model (a frozenset plus a complement flag) and the outcomes are compared."""
import copy
import itertools
import pickle
import sys

import vw
from guppy.sets import (BitSet, ImmBitSet, MutBitSet, immbit, immbitrange,
                        immbitset, mutbitset)
import guppy.sets.setsc as setsc

MIN, MAX = -2**63, 2**63 - 1


class M:
    """Model: the set s, or its complement."""
    __slots__ = "s", "c"

    def __init__(self, s=(), c=False):
        self.s = frozenset(s)
        self.c = c

    def __repr__(self):
        l = sorted(self.s)
        t = repr(l) if len(l) <= 40 else "%r..%r (%d)" % (l[:20], l[-10:], len(l))
        return ("~" if self.c else "") + t

    def __contains__(self, x):
        return (x in self.s) != self.c

    def __eq__(self, o):
        return self.s == o.s and self.c == o.c

    def __invert__(self):
        return M(self.s, not self.c)

    def __and__(a, b):
        if not a.c and not b.c:
            return M(a.s & b.s)
        if not a.c:
            return M(a.s - b.s)
        if not b.c:
            return M(b.s - a.s)
        return M(a.s | b.s, True)

    def __or__(a, b):
        return ~(~a & ~b)

    def __xor__(a, b):
        return M(a.s ^ b.s, a.c != b.c)

    def __sub__(a, b):
        return a & ~b

    def le(a, b):
        return a - b == EMPTY


EMPTY = M()

BIN = {"&": (lambda a, b: a & b), "|": (lambda a, b: a | b), "^": (lambda a, b: a ^ b), "-": (lambda a, b: a - b)}
CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<=": lambda a, b: a <= b,
       "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, ">": lambda a, b: a > b}
MCMP = {"==": lambda a, b: a == b, "!=": lambda a, b: not a == b, "<=": lambda a, b: a.le(b),
        "<": lambda a, b: a.le(b) and not a == b, ">=": lambda a, b: b.le(a), ">": lambda a, b: b.le(a) and not a == b}


def iop(op, a, b):
    if op == "&":
        a &= b
    elif op == "|":
        a |= b
    elif op == "^":
        a ^= b
    else:
        a -= b
    return a


def call(f, *a):
    try:
        return "ok", f(*a)  # sut
    except Exception as e:
        return "exc", e


class Gen:
    BOUND = [0, 1, 2, 3, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, -1, -2, -63, -64, -65, -66, -127, -128, -129]

    def __init__(self, w):
        self.w = w
        self.r = w.rng

    def bits(self, size=None):
        r = self.r
        p = r.random()
        n = size if size is not None else r.choice([0, 1, 1, 2, 3, 5, 8, 13, 30, 80])
        if p < .25:
            return {r.randrange(-10, 80) for _ in range(n)}
        if p < .45:
            return {r.choice(self.BOUND) for _ in range(n)}
        if p < .6:
            lo = r.randrange(-300, 300)
            return set(range(lo, lo + n * r.choice([1, 2, 5]), r.choice([1, 1, 2, 3, 7])))
        if p < .75:
            return {r.randrange(-10**6, 10**6) for _ in range(n)}
        if p < .85:
            return {r.choice([MIN, MAX]) + r.choice([0, 1, 2, 62, 63, 64, 65]) * (1 if r.random() < .5 else -1) for _ in range(n)} & set(
                x for x in ()) | {x for x in (r.choice([MIN + r.randrange(130), MAX - r.randrange(130)]) for _ in range(n))}
        if p < .95:
            return {r.getrandbits(64) + MIN for _ in range(n)}
        return {r.randrange(0, 64) * 64 + r.choice([0, 1, 62, 63]) for _ in range(n)}

    def model(self, cpl=.3):
        return M(self.bits(), self.r.random() < cpl)

    def perm(self, s):
        l = list(s)
        self.r.shuffle(l)
        return l

    def finite_imm(self, s):
        """An immutable non-complemented bit set holding s, by a random route."""
        r = self.r
        l = self.perm(s)
        k = r.randrange(12)
        if k == 0:
            return "immbitset(list)", immbitset(l)
        if k == 1:
            return "immbitset(tuple)", immbitset(tuple(l))
        if k == 2:
            return "immbitset(dict)", immbitset(dict.fromkeys(l))
        if k == 3:
            return "immbitset(iter)", immbitset(iter(l))
        if k == 4 and (not s or (min(s) >= 0 and max(s) < 5000)):
            return "immbitset(int)", immbitset(sum(1 << x for x in s))
        if k == 5:
            m = mutbitset()
            for x in l:
                m.add(x)
            return "immbitset(mut adds)", immbitset(m)
        if k == 6:
            extra = self.bits(5) - set(s)
            m = mutbitset(l + list(extra))
            for x in extra:
                m.remove(x)
            return "immbitset(mut with removals)", immbitset(m)
        if k == 7:
            x = immbitset()
            for b in l[:30]:
                x = x | immbit(b)
            return "union of singles", x | immbitset(l[30:])
        if k == 8:
            return "~~", ~~immbitset(l)
        if k == 9:
            return "ImmBitSet()", ImmBitSet(l)
        if k == 10:
            h = len(l) // 2
            return "range-ish or", immbitset(l[:h]) | l[h:]
        return "mutcopy", immbitset(immbitset(l).mutcopy())

    def sut(self, m, kind=None):
        """-> (route, object, actual type kind) for model m; kind imm|mut|None."""
        r = self.r
        kind = kind or r.choice(["imm", "imm", "mut"])
        if kind == "imm":
            route, x = self.finite_imm(m.s)
            if m.c:
                return "~" + route, ~x
            return route, x
        k = r.randrange(5)
        l = self.perm(m.s)
        if m.c:
            if k == 0:
                return "mut(~imm)", mutbitset(~immbitset(l))
            if k == 1:
                x = mutbitset(l)
                x ^= ~immbitset()
                return "mut ^= ~{}", x
            if k == 2:
                x = mutbitset()
                x |= ~immbitset(l)
                return "mut |= ~l", x
            if k == 3:
                x = mutbitset(-1)
                x -= l
                return "mut(-1) -= l", x
            return "cpl.mutcopy", (~immbitset(l)).mutcopy()
        if k == 0:
            return "mut(list)", mutbitset(l)
        if k == 1:
            x = mutbitset()
            for b in l:
                x.add(b)
            return "mut adds", x
        if k == 2:
            x = mutbitset(immbitset(l))
            return "mut(imm)", x
        if k == 3:
            return "imm.mutcopy", immbitset(l).mutcopy()
        x = mutbitset(~immbitset(l))
        x ^= ~immbitset()
        return "mut(~imm)^=~{}", x


class Checker:
    def __init__(self, w, g, prop):
        self.w = w
        self.g = g
        self.prop = prop
        self.log = []

    def bad(self, key, msg):
        self.w.violate("%s:%s" % (self.prop, key), msg + "\nhistory tail:\n  " + "\n  ".join(self.log[-25:]))

    def probes(self, m):
        r = self.g.r
        s = m.s
        p = set(r.sample(sorted(s), min(len(s), 4))) if s else set()
        p |= {x + d for x in list(p) for d in (-1, 1, 64, -64)}
        p |= {r.choice(Gen.BOUND), r.randrange(-500, 500)}
        return [x for x in p if MIN <= x <= MAX]

    def same(self, x, m, ctx, light=False, okey=None):
        """Compare everything observable of x with the model m."""
        w = self.w
        w.event("compare")
        key = okey or "value"
        try:
            if not isinstance(x, BitSet):
                return self.bad(key + ":type", "%s: result %r is not a bit set (model %r)" % (ctx, x, m))
            if m.c:
                k1, v1 = call(len, x)
                if k1 == "ok" or not isinstance(v1, TypeError):
                    return self.bad(key + ":cpl-len", "%s: len of complemented set gave %r; model %r; sut %r" % (ctx, v1, m, x))
                inner = ~x
                got = list(inner)
            else:
                got = list(x)
            if got != sorted(m.s):
                return self.bad(key + ":members", "%s: got %s%s want %r" % (ctx, "~" if m.c else "", short(got), m))
            if not m.c:
                w.event("len")
                if len(x) != len(m.s):
                    return self.bad(key + ":len", "%s: len %d want %d for %r" % (ctx, len(x), len(m.s), m))
            if bool(x) != (m.c or bool(m.s)):
                return self.bad(key + ":bool", "%s: bool %r want %r for %r" % (ctx, bool(x), not bool(x), m))
            if light:
                return
            for p in self.probes(m):
                w.event("in")
                if (p in x) != (p in m):
                    return self.bad(key + ":in", "%s: (%d in x) is %r for %r (sut %r)" % (ctx, p, p in x, m, short(got)))
        except Exception as e:
            import traceback
            self.bad(key + ":exc:" + type(e).__name__, "%s: observing raised %r; model %r\n%s" % (ctx, e, m, traceback.format_exc()))


def short(l):
    return repr(l) if len(l) <= 40 else "%r..%r (%d)" % (l[:20], l[-10:], len(l))


def kindof(x):
    return type(x).__name__


# ---------------------------------------------------------------- S01

def operand(g, m):
    """A right operand standing for model m: (description, object, model)."""
    r = g.r
    l = g.perm(m.s)
    k = r.randrange(9)
    if k <= 3 or (m.c and k > 4):
        route, x = g.sut(m)
        return kindof(x) + ":" + route, x, m
    if m.c or k == 4:
        s = [x for x in l if 0 <= x < 3000]
        n = sum(1 << x for x in s)
        if m.c:
            return "int", ~n, M(s, True)
        return "int", n, M(s)
    if k == 5:
        return "list", l + l[:2], m
    if k == 6:
        return "tuple", tuple(l + l[-1:]), m
    if k == 7:
        return "dict", dict.fromkeys(l), m
    return "iter", (x for x in l + l[:1]), m


BADOP = [(1.5, TypeError), (None, TypeError), (["a"], TypeError), ([1.5], TypeError), ([2**64], OverflowError),
         ((1, None), TypeError), ({None: 1}, TypeError), (object(), TypeError), ([-2**63 - 1], OverflowError)]


def s01(w):
    g = Gen(w)
    r = g.r
    ck = Checker(w, g, "S01")
    n = w.args["n"]
    i = 0
    while w.more(i, n):
        i += 1
        ck.log = []
        a = g.model()
        b = g.model() if r.random() < .7 else M((a.s | g.bits(2)) - set(g.perm(a.s)[:r.randrange(2)]), r.random() < .3)
        ra, x = g.sut(a)
        w.beat("S01 case %d a=%r via %s" % (i, a, ra))
        ck.same(x, a, "construct %s" % ra, okey="construct:" + ra)
        # foreign or bit set operand
        desc, y, b = operand(g, b)
        op = r.choice("&|^-")
        want = BIN[op](a, b)
        ck.log.append("x=%s %r ; y=%s %r ; x %s y" % (ra, a, desc, b, op))
        w.beat("S01 binop " + ck.log[-1])
        kind, res = call(BIN[op], x, y)
        w.event("binop")
        w.case((op, kindof(x), desc.split(":")[0], hash(a.s), hash(b.s), a.c, b.c),
               sample="%s(%r) %s %s(%r)" % (kindof(x), a, op, desc, b) if i < 40 and len(a.s) < 10 else None)
        key = "binop:%s:%s:%s" % (op, kindof(x), desc.split(":")[0])
        if kind == "exc":
            ck.bad(key + ":raised", "x %s y raised %r" % (op, res))
        else:
            ck.same(res, want, "x %s y" % op, okey=key)
            if isinstance(res, MutBitSet):
                ck.bad(key + ":mutable", "binary operator returned a mutable set")
            ck.same(x, a, "left operand after x %s y" % op, okey=key + ":leftchanged")
            if isinstance(y, BitSet):
                ck.same(y, b, "right operand after x %s y" % op, okey=key + ":rightchanged")
        # reflected: convertible OP bitset (types that do not define the op themselves)
        if desc in ("list", "tuple", "iter") and r.random() < .5:
            y2 = g.perm(b.s)
            y2 = y2 if desc == "list" else tuple(y2) if desc == "tuple" else iter(y2)
            kind, res = call(BIN[op], y2, x)
            w.event("rbinop")
            if kind == "exc":
                ck.bad("rbinop:%s:%s:raised" % (op, desc), "y %s x raised %r" % (op, res))
            else:
                ck.same(res, BIN[op](b, a), "y %s x" % op, okey="rbinop:%s:%s" % (op, desc))
        # augmented assignment
        desc, y, b = operand(g, b)
        alias = x
        ck.log.append("x %s= %s %r" % (op, desc, b))
        w.beat("S01 iop " + ck.log[-1])
        kind, res = call(iop, op, x, y)
        w.event("iop")
        key = "iop:%s:%s:%s" % (op, kindof(x), desc.split(":")[0])
        want = BIN[op](a, b)
        if kind == "exc":
            ck.bad(key + ":raised", "x %s= y raised %r" % (op, res))
        else:
            ck.same(res, want, "x %s= y" % op, okey=key)
            if isinstance(x, MutBitSet):
                if res is not alias:
                    ck.bad(key + ":identity", "in-place operator on a mutable set returned another object")
                a = want
            else:
                ck.same(alias, a, "immutable operand after x %s= y" % op, okey=key + ":changed")
            if isinstance(y, BitSet):
                ck.same(y, b, "right operand after x %s= y" % op, okey=key + ":rightchanged")
        # self operand
        if r.random() < .3:
            x3, m3 = x, a
            kind, res = call(BIN[op], x3, x3)
            w.event("selfop")
            if kind == "exc":
                ck.bad("selfop:%s:raised" % op, "x %s x raised %r" % (op, res))
            else:
                ck.same(res, BIN[op](m3, m3), "x %s x" % op, okey="selfop:%s:%s" % (op, kindof(x3)))
            if isinstance(x3, MutBitSet):
                kind, res = call(iop, op, x3, x3)
                if kind == "exc":
                    ck.bad("selfiop:%s:raised" % op, "x %s= x raised %r" % (op, res))
                else:
                    a = BIN[op](m3, m3)
                    ck.same(x3, a, "x %s= x" % op, okey="selfiop:" + op)
        # complement
        kind, res = call(lambda: ~x)
        w.event("complement")
        if kind == "exc":
            ck.bad("invert:raised", "~x raised %r" % res)
        else:
            ck.same(res, ~a, "~x", okey="invert:" + kindof(x))
            ck.same(x, a, "x after ~x", okey="invert:changed")
            ck.same(~~x, a, "~~x", okey="invert2:" + kindof(x))
        # shift
        sh = r.choice([0, 1, -1, 63, 64, 65, -64, 127, 1000, -1000, r.randrange(-10**6, 10**6), r.choice([MAX, MIN, MAX - 5, 2**62])])
        kind, res = call(lambda: x << sh)
        w.event("shift")
        over = any(not MIN <= v + sh <= MAX for v in a.s)
        key = "shift:" + kindof(x)
        if over:
            if kind == "ok":
                # An overflow may only be missed if nothing is lost; it never is.
                ck.bad(key + ":nooverflow", "x << %d gave %r for %r, OverflowError expected" % (sh, res, a))
            elif not isinstance(res, OverflowError):
                ck.bad(key + ":exc", "x << %d raised %r for %r, OverflowError expected" % (sh, res, a))
        elif kind == "exc":
            ck.bad(key + ":raised", "x << %d raised %r for %r" % (sh, res, a))
        else:
            ck.same(res, M({v + sh for v in a.s}, a.c), "x << %d" % sh, okey=key)
        # comparison
        c = r.choice([g.model(), a, ~a, M(a.s | g.bits(1), a.c), M(set(g.perm(a.s)[1:]), a.c), M(a.s, not a.c)])
        rc, z = g.sut(c)
        for o in CMP:
            kind, res = call(CMP[o], x, z)
            w.event("cmp")
            key = "cmp:%s:%s:%s" % (o, kindof(x), kindof(z))
            if kind == "exc" or res is not MCMP[o](a, c):
                ck.bad(key, "%s(%r) %s %s(%r) gave %r" % (kindof(x), a, o, kindof(z), c, res))
        # unsupported operands
        if r.random() < .3:
            badv, exc = r.choice(BADOP)
            for f, nm in ((lambda: BIN[op](x, badv), "binop"), (lambda: iop(op, x, badv), "iop")):
                kind, res = call(f)
                w.event("badop")
                if kind == "ok" or not isinstance(res, exc):
                    ck.bad("bad:%s:%s" % (nm, type(badv).__name__), "x %s %r (%s) gave %r; %s expected" % (op, badv, nm, res, exc.__name__))
                if nm == "binop" or not isinstance(x, MutBitSet) or not isinstance(badv, (list, tuple, dict)):
                    ck.same(x, a, "x after failing %s" % nm, okey="bad:%s:changed" % nm)
            for f, exc in ((lambda: 1.5 in x, TypeError), (lambda: "a" in x, TypeError), (lambda: 2**63 in x, OverflowError),
                           (lambda: x << 1.5, TypeError), (lambda: x << 2**64, OverflowError), (lambda: x == 3, TypeError),
                           (lambda: x < [1], TypeError)):
                kind, res = call(f)
                if kind == "ok" or not isinstance(res, exc):
                    ck.bad("bad:misc:%s" % exc.__name__, "gave %r; %s expected" % (res, exc.__name__))
    w.event("cases", i)


# ---------------------------------------------------------------- S02

def s02(w):
    g = Gen(w)
    r = g.r
    ck = Checker(w, g, "S02")
    nh = w.args["n"]
    h = 0
    while w.more(h, nh):
        h += 1
        style = w.args.get("style") or r.choice(["small", "small", "seg", "seg", "big", "far"])
        steps = {"small": r.randrange(10, 120), "seg": r.randrange(100, 900), "big": r.randrange(1500, 5000), "far": r.randrange(20, 300)}[style]
        if style == "small":
            def pick():
                return r.choice(Gen.BOUND) if r.random() < .5 else r.randrange(-20, 150)
        elif style == "seg":
            span = r.choice([3000, 20000, 10**5])

            def pick():
                return r.randrange(-span, span)
        elif style == "big":
            span = r.choice([10**5, 10**7])

            def pick():
                return r.randrange(-span, span)
        else:
            def pick():
                return r.choice([r.getrandbits(64) + MIN, MIN + r.randrange(200), MAX - r.randrange(200), r.randrange(1000)])
        ck.log = []
        m = g.model(.15)
        route, x = g.sut(m, "mut")
        split = None
        if style == "seg" and hasattr(x, "_splitting_size"):
            split = r.choice([2, 8, 20, 50])
            x._splitting_size = split
        S, C = set(m.s), m.c
        ck.log.append("start %s %r style=%s split=%s" % (route, m, style, split))
        snaps = []
        maxseg = 0
        grow = r.choice([.3, .6, .9])
        w.case((style, split, route, hash(m.s), steps), sample=ck.log[0] if h < 5 else None)
        bits_pool = None
        for st in range(steps):
            before = w.nviol
            p = r.random()
            if p < .08 and S:
                e = r.choice(list(S)) if len(S) < 200 else next(iter(S))
            else:
                e = pick()
            q = r.random()
            inset = (e in S) != C
            if q < .55:
                op = r.choice(["add", "add", "append", "tas"]) if r.random() < grow else r.choice(["discard", "remove", "tac"])
                if op in ("discard", "remove", "tac") and S and not C and r.random() < .6:
                    if bits_pool is None or not bits_pool:
                        bits_pool = list(S)
                        r.shuffle(bits_pool)
                    e = bits_pool.pop()
                    inset = (e in S) != C
                ck.log.append("%s(%d)" % (op, e))
                w.beat("S02 h%d step %d %s" % (h, st, " ; ".join(ck.log[-8:])))
                kind, res = call(getattr(x, op), e)
                w.event("mut:" + op)
                on = op in ("add", "append", "tas")
                fail = (op == "append" and inset) or (op == "remove" and not inset)
                if fail:
                    if kind == "ok" or not isinstance(res, ValueError):
                        ck.bad(op + ":noraise", "%s(%d) gave %r; ValueError expected" % (op, e, res))
                else:
                    want = inset if op in ("tas", "tac") else None
                    if kind == "exc" or res != want or (want is None) != (res is None):
                        ck.bad(op + ":result", "%s(%d) gave %r; expected %r; element %s" % (op, e, res, want, "present" if inset else "absent"))
                    if on != inset:
                        S ^= {e}
            elif q < .70:
                op = "pop"
                side = r.choice([0, -1, None])
                cnt = 1
                if style in ("seg", "big") and r.random() < .1:
                    cnt = r.randrange(1, 2 + len(S) // 2)
                ck.log.append("pop(%s) x%d" % (side, cnt))
                w.beat("S02 h%d step %d %s" % (h, st, " ; ".join(ck.log[-8:])))
                order = sorted(S) if S and not C else []
                if side != 0:
                    order.reverse()
                for j in range(cnt):
                    kind, res = call(x.pop, *([] if side is None else [side]))
                    w.event("mut:pop")
                    if C or j >= len(order):
                        if kind == "ok" or not isinstance(res, ValueError):
                            ck.bad("pop:noraise", "pop gave %r; ValueError expected (cpl=%s, size=%d)" % (res, C, len(S)))
                        break
                    if kind == "exc" or res != order[j]:
                        ck.bad("pop:result", "pop(%s) gave %r, expected %d" % (side, res, order[j]))
                        break
                    S.discard(order[j])
            elif q < .73:
                if r.random() < .35:
                    ck.log.append("clear()")
                    w.beat("S02 h%d step %d %s" % (h, st, " ; ".join(ck.log[-8:])))
                    kind, res = call(x.clear)
                    w.event("mut:clear")
                    if kind == "exc" or res is not None:
                        ck.bad("clear:result", "clear() gave %r" % (res,))
                    S, C = set(), False
            elif q < .85:
                om = M(g.bits(r.choice([0, 1, 3, 10, 60])), r.random() < .15)
                if snaps and r.random() < .4:
                    y, om, _ = r.choice(snaps)
                    desc = "snapshot " + kindof(y)
                elif r.random() < .1:
                    y, om, desc = x, M(S, C), "self"
                else:
                    desc, y, om = operand(g, om)
                op = r.choice("&|^-") if r.random() < .7 else "|"
                if op == "&" and len(S) > 100 and r.random() < .8:
                    op = "|"
                ck.log.append("%s= %s %r" % (op, desc, om))
                w.beat("S02 h%d step %d %s" % (h, st, " ; ".join(ck.log[-8:])))
                kind, res = call(iop, op, x, y)
                w.event("mut:iop" + op)
                if kind == "exc" or res is not x:
                    ck.bad("iop%s:result:%s" % (op, desc.split(":")[0]), "x %s= %s gave %r" % (op, desc, res))
                nm = BIN[op](M(S, C), om)
                S, C = set(nm.s), nm.c
                bits_pool = None
            elif q < .97:
                # observe / snapshot
                cur = M(S, C)
                how = r.choice(["imm", "imm", "immlen", "copy", "mutbitset", "slice", "invert", "pickle", "iterhold", "lenx", "index", "binop",
                                "lendrop", "lendrop"])
                ck.log.append("observe " + how)
                w.beat("S02 h%d step %d %s" % (h, st, " ; ".join(ck.log[-8:])))
                w.event("snap:" + how)
                if how in ("imm", "immlen"):
                    s = immbitset(x)
                    if how == "immlen" and not C:
                        len(s)
                    snaps.append((s, cur, "immbitset(x) at step %d" % st))
                elif how == "copy":
                    snaps.append((x.mutcopy(), cur, "x.mutcopy() at step %d" % st))
                elif how == "mutbitset":
                    snaps.append((mutbitset(x), cur, "mutbitset(x) at step %d" % st))
                elif how == "slice":
                    snaps.append((x[:], cur, "x[:] at step %d" % st))
                elif how == "invert":
                    snaps.append((~x, ~cur, "~x at step %d" % st))
                elif how == "pickle":
                    s = pickle.loads(pickle.dumps(x, r.randrange(6)))
                    snaps.append((s, cur, "pickle copy at step %d" % st))
                elif how == "binop":
                    o2 = r.choice("&|^-")
                    om = M(g.bits(3))
                    snaps.append((BIN[o2](x, immbitset(om.s)), BIN[o2](cur, om), "x %s y at step %d" % (o2, st)))
                elif how == "iterhold" and not C:
                    it = iter(x)
                    next(it, None)
                    if r.random() < .5:
                        w.held = it
                elif how == "lendrop" and not C:
                    # a snapshot that is measured and dropped; the next must be measured anew
                    s = immbitset(x)
                    if len(s) != len(S):
                        ck.bad("snaplen", "len(immbitset(x)) = %d, expected %d" % (len(s), len(S)))
                    del s
                elif how == "lenx" and not C:
                    if len(x) != len(S):
                        ck.bad("len", "len(x) = %d, expected %d" % (len(x), len(S)))
                elif how == "index" and not C:
                    for ix, f in ((0, min), (-1, max)):
                        kind, res = call(lambda: x[ix])
                        if S:
                            if kind == "exc" or res != f(S):
                                ck.bad("index", "x[%d] gave %r, expected %r" % (ix, res, f(S)))
                        elif kind == "ok" or not isinstance(res, IndexError):
                            ck.bad("index", "x[%d] on empty gave %r" % (ix, res))
                # mutate a mutable snapshot now and then: x must not change, nor others
                mut = [t for t in range(len(snaps)) if isinstance(snaps[t][0], MutBitSet)]
                if mut and r.random() < .5:
                    t = r.choice(mut)
                    y, ym, d = snaps[t]
                    for _ in range(r.randrange(1, 5)):
                        e2 = pick()
                        if r.random() < .6:
                            y.add(e2)
                            ym = ym | M([e2])
                        else:
                            y.discard(e2)
                            ym = ym - M([e2])
                    snaps[t] = (y, ym, d + " (then mutated)")
                    w.event("snap:mutated")
                if len(snaps) > 8:
                    t = r.randrange(len(snaps))
                    y, ym, d = snaps.pop(t)
                    ck.same(y, ym, d + " when dropped", okey="snapshot")
                if r.random() < .2 and snaps:
                    y, ym, d = r.choice(snaps)
                    ck.same(y, ym, d, okey="snapshot")
            else:
                # replace: hash of mutable must be refused, comparison with a fresh copy
                cur = M(S, C)
                rt, z = g.sut(cur)
                for o in ("==", "<=", "<", ">"):
                    kind, res = call(CMP[o], x, z)
                    w.event("hcmp")
                    if kind == "exc" or res is not MCMP[o](cur, cur):
                        ck.bad("cmp:" + o, "x %s fresh copy (%s) gave %r for %r" % (o, rt, res, cur))
                e2 = pick()
                z2m = M(cur.s ^ {e2}, C)
                rt, z2 = g.sut(z2m)
                for o in ("==", "!=", "<=", ">="):
                    kind, res = call(CMP[o], x, z2)
                    if kind == "exc" or res is not MCMP[o](cur, z2m):
                        ck.bad("cmp:" + o, "x %s near copy gave %r; x=%r other=%r" % (o, res, cur, z2m))
            if style == "small" or st % 37 == 0:
                ck.same(x, M(S, C), "x after step %d" % st, okey="state")
            elif st % 5 == 0:
                e3 = pick()
                if (e3 in x) != ((e3 in S) != C):
                    ck.bad("state:in", "(%d in x) is %r after step %d" % (e3, e3 in x, st))
            ns = getattr(x, "_num_seg", 0)
            maxseg = max(maxseg, ns)
            if w.nviol != before:
                break
        ck.same(x, M(S, C), "x at end of history", okey="state")
        for y, ym, d in snaps:
            ck.same(y, ym, d + " at end", okey="snapshot")
        w.event("histories")
        w.event("steps", st + 1)
        if maxseg > 1:
            w.event("histories_with_segments")
        if maxseg > 10:
            w.event("histories_with_10_segments")


# ---------------------------------------------------------------- S03

def derive(w, g, ck, m):
    """A chain of snapshots of a mutable set that changes a little between them;
    each may be measured, hashed, kept or dropped."""
    r = g.r
    rt, x = g.sut(m, "mut")
    if r.random() < .5:
        x = mutbitset(immbitset(x))
    S = set(m.s)
    kept = []
    for k in range(r.randrange(3, 14)):
        how = r.choice(["immbitset", "slice", "ImmBitSet", "not not", "or"])
        t = {"immbitset": lambda: immbitset(x), "slice": lambda: x[:], "ImmBitSet": lambda: ImmBitSet(x), "not not": lambda: ~~x,
             "or": lambda: x | immbitset()}[how]()
        w.event("derive")
        if isinstance(t, MutBitSet):
            t = immbitset(t)
        if r.random() < .8 and len(t) != len(S):
            return ck.bad("derive:len", "step %d: len of %s of a mutable set (%s) is %d, expected %d; %s" % (k, how, rt, len(t), len(S), short(sorted(S))))
        if r.random() < .5:
            ref = immbitset(sorted(S))
            if not t == ref or hash(t) != hash(ref) or t != ref or ref - t or t - ref or int(t == ref) != 1:
                return ck.bad("derive:value", "step %d: %s of a mutable set (%s) is not the set it holds" % (k, how, rt))
        if r.random() < .3:
            kept.append((t, set(S)))
        del t
        if r.random() < .1:
            x = mutbitset(x)
        q = r.random()
        e = r.choice(sorted(S)) if S and r.random() < .6 else (r.choice(sorted(S)) ^ 1 if S else 5)
        if not MIN <= e <= MAX:
            continue
        if q < .4:
            x.discard(e)
            S.discard(e)
        elif q < .8:
            x.add(e)
            S.add(e)
        elif q < .9:
            x ^= immbitset([e])
            S ^= {e}
        elif S:
            y = x.pop()
            S.remove(y)
    for t, s in kept:
        if list(t) != sorted(s) or len(t) != len(s):
            ck.bad("derive:kept", "an earlier snapshot has changed: %d elements, length %d, expected %d" % (len(list(t)), len(t), len(s)))


def s03(w):
    g = Gen(w)
    r = g.r
    ck = Checker(w, g, "S03")
    n = w.args["n"]

    class Sub(ImmBitSet):
        pass

    class MSub(MutBitSet):
        pass

    i = 0
    while w.more(i, n):
        i += 1
        m = g.model(.25)
        if r.random() < .1:
            m = M(set(g.bits(600)), m.c)
        ck.log = ["model %r" % m]
        w.beat("S03 case %d %r" % (i, m))
        w.case((hash(m.s), m.c), sample=repr(m) if len(m.s) < 8 and i < 30 else None)
        forms = [g.sut(m, "imm") for _ in range(4)] + [g.sut(m, "mut")]
        routes = []
        h = None
        for rt, x in forms:
            objs = [(rt, x), ("immbitset(%s)" % rt, immbitset(x)), ("pickle(%s)" % rt, pickle.loads(pickle.dumps(x, r.randrange(6)))),
                    ("copy(%s)" % rt, copy.copy(x)), ("deepcopy(%s)" % rt, copy.deepcopy(x)), ("mutbitset(%s)" % rt, mutbitset(x)),
                    ("x[:]", x[:] if isinstance(x, (ImmBitSet, MutBitSet)) else x)]
            if not m.c:
                objs.append(("Sub(%s)" % rt, Sub(x)))
                objs.append(("ImmBitSet(%s)" % rt, ImmBitSet(x)))
                if m.s and min(m.s) >= 0 and max(m.s) < 4000 or not m.s:
                    iv = sum(1 << b for b in m.s)
                    kind, res = call(int, x)
                    w.event("int")
                    if kind == "exc" or res != iv:
                        ck.bad("int", "int(%s) gave %r for %r" % (rt, res, m))
                    objs.append(("from int", immbitset(iv)))
                    objs.append(("mut from int", mutbitset(iv)))
                elif min(m.s) < 0:
                    kind, res = call(int, x)
                    if kind == "ok" or not isinstance(res, OverflowError):
                        ck.bad("int:neg", "int() of a set with negative members gave %r" % (res,))
            else:
                objs.append(("~~", ~~x))
                if m.s and min(m.s) >= 0 and max(m.s) < 4000 or not m.s:
                    iv = ~sum(1 << b for b in m.s)
                    kind, res = call(int, x)
                    if kind == "exc" or res != iv:
                        ck.bad("int:cpl", "int(%s) gave %r for %r" % (rt, res, m))
                    objs.append(("from int", immbitset(iv)))
                    objs.append(("mut from int", mutbitset(iv)))
            objs.append(("MSub", MSub(x)))
            for nm, y in objs:
                ck.same(y, m, nm, okey="form:" + nm.split("(")[0])
                w.event("form")
                if not isinstance(y, MutBitSet):
                    hy = hash(y)
                    if h is None:
                        h = hy
                    if hy != h:
                        ck.bad("hash", "hash of %s is %r, but %r for the same set %r" % (nm, hy, h, m))
                    w.event("hash")
                else:
                    kind, res = call(hash, y)
                    if kind == "ok":
                        ck.bad("hash:mut", "a mutable set is hashable")
                routes.append((nm, y))
            if type(x) is not MutBitSet and immbitset(x) is not x:
                ck.bad("immbitset:identity", "immbitset(immutable) is another object")
            if isinstance(x, MutBitSet):
                if type(copy.copy(x)) is not MutBitSet or copy.copy(x) is x:
                    ck.bad("copy:mut", "copy of a mutable set is not an independent mutable set")
        if not m.c:
            derive(w, g, ck, m)
        a = r.choice(routes)
        b = r.choice(routes)
        for o in CMP:
            kind, res = call(CMP[o], a[1], b[1])
            w.event("cmp")
            if kind == "exc" or res is not MCMP[o](m, m):
                ck.bad("cmp:" + o, "%s %s %s gave %r for equal sets %r" % (a[0], o, b[0], res, m))
        # slices
        if not m.c:
            l = sorted(m.s)
            for _ in range(4):
                k = r.choice([1, 2, 3, len(l), len(l) - 1, len(l) + 1, r.randrange(1, 70), MAX, MAX - 1])
                nm, x = r.choice(routes)
                if k > 0:
                    for sl, want in ((slice(0, k), l[:k]), (slice(None, k), l[:k]), (slice(-k, None), l[-k:])):
                        kind, res = call(lambda: x[sl])
                        w.event("slice")
                        ck.log.append("%s[%r]" % (nm, sl))
                        if kind == "exc":
                            ck.bad("slice:raised", "%s[%r] raised %r" % (nm, sl, res))
                        else:
                            ck.same(res, M(want), "%s[%r]" % (nm, sl), okey="slice")
                            if hash(res) != hash(immbitset(want)):
                                ck.bad("slice:hash", "hash of %s[%r] differs from that of an equal set" % (nm, sl))
                            ck.same(x, m, "x after slicing", okey="slice:changed", light=True)
            nm, x = r.choice(routes)
            for sl in (slice(1, 3), slice(0, 5, 2), slice(2, None), slice(-5, -2), slice(0, 2**70), slice(-2**70, None), slice("a", None),
                       slice(None, 1.5), slice(None, None, "x"), slice(None, None, 2**70)):
                kind, res = call(lambda: x[sl])
                w.event("badslice")
                if kind == "ok":
                    # a bound beyond every length may be treated as infinite
                    ok = (sl.start in (0, None) and isinstance(sl.stop, int) and sl.stop >= len(l) and sl.step is None) or \
                         (isinstance(sl.start, int) and sl.start <= -len(l) and sl.stop is None and sl.step is None)
                    if not ok or list(res) != l:
                        ck.bad("badslice", "%s[%r] gave %r" % (nm, sl, res))
                elif isinstance(res, SystemError):
                    ck.bad("badslice:SystemError", "%s[%r] raised %r" % (nm, sl, res))
            kind, res = call(lambda: x[-2**63:])
            if kind == "ok":
                ck.same(res, m, "x[-2**63:]", okey="slice:min")
            for ix in (0, -1):
                nm, x = r.choice(routes)
                kind, res = call(lambda: x[ix])
                w.event("index")
                if l:
                    if kind == "exc" or res != l[ix]:
                        ck.bad("index", "%s[%d] gave %r, expected %r" % (nm, ix, res, l[ix]))
                elif kind == "ok" or not isinstance(res, IndexError):
                    ck.bad("index:empty", "%s[%d] of the empty set gave %r" % (nm, ix, res))
            for ix in (1, -2, 5, 2**70, "a", None):
                nm, x = r.choice(routes)
                kind, res = call(lambda: x[ix])
                if kind == "ok" or isinstance(res, SystemError):
                    ck.bad("index:bad", "%s[%r] gave %r" % (nm, ix, res))
        # ranges
        for _ in range(3):
            p = r.random()
            if p < .6:
                lo = r.randrange(-200, 200)
                hi = lo + r.randrange(-5, 700)
                st = r.choice([1, 1, 2, 3, 5, 7, 13, 31, 32, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129])
            elif p < .8:
                st = r.choice([1, 3, 64, 65, 1000, 10**6, r.randrange(1, 500)])
                lo = r.randrange(-10**6, 10**6)
                hi = lo + r.randrange(0, 400) * st + r.randrange(0, st)
            elif p < .9:
                st = r.choice([1, 2, 7, 63, 64, 65, 2**20, 2**60, 2**61 + 5])
                hi = MAX - r.choice([0, 1, 2, 63, 64, r.randrange(200)])
                lo = max(MIN, hi - r.randrange(0, 300) * st - r.randrange(3))
            else:
                st = r.choice([1, 2, 7, 63, 64, 65, 2**20, 2**60, 2**62, MAX])
                lo = MIN + r.choice([0, 1, 2, 63, 64, r.randrange(200)])
                hi = min(MAX, lo + r.randrange(0, 300) * st + r.randrange(3))
            args = (lo, hi, st)
            if st == 1 and r.random() < .3:
                args = (lo, hi)
            if st == 1 and r.random() < .1:
                args = (hi,)
            ck.log.append("immbitrange%r" % (args,))
            w.beat("S03 immbitrange%r" % (args,))
            want = range(*args)
            if len(want) > 20000:
                continue
            kind, res = call(immbitrange, *args)
            w.event("range")
            if kind == "exc":
                ck.bad("range:raised", "immbitrange%r raised %r" % (args, res))
            else:
                ck.same(res, M(want), "immbitrange%r" % (args,), okey="range")
                if hash(res) != hash(immbitset(list(want))):
                    ck.bad("range:hash", "hash of immbitrange%r differs from that of the equal set" % (args,))
        for args, exc in (((0, 10, 0), ValueError), ((0, 10, -1), ValueError), ((0, 2**40), OverflowError), ((), TypeError), (("a",), TypeError)):
            kind, res = call(immbitrange, *args)
            if kind == "ok" or not isinstance(res, exc):
                ck.bad("range:bad", "immbitrange%r gave %r" % (args, res))
    w.event("cases", i)


vw.main(lambda w: {"S01": s01, "S02": s02, "S03": s03}[w.args["mode"]](w))
