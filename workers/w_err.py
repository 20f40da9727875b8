"""Faults: allocations that fail (E02), user code that raises (E01), interrupts (E03)."""
import gc
import sys
import os
import weakref

import vw
import vops
from vops import Ops, Op, result

import _testcapi


def arm(start, stop=0):
    _testcapi.set_nomemory(start, stop)


disarm = _testcapi.remove_mem_hooks


def attempt(f, operands):
    try:
        return None, f(*operands)
    except Exception as e:
        return type(e).__name__ + ": " + str(e)[:200], None


def faulty(f, operands, start, stop):
    """Call with allocations failing; the class of what is raised, and the result."""
    arm(start, stop)
    try:
        r = f(*operands)
        disarm()
        return None, r, None
    except MemoryError:
        disarm()
        return "MemoryError", None, None
    except BaseException as e:
        disarm()
        t = type(e).__name__
        return t, None, "%s: %s" % (t, str(e)[:300])


class Memory:
    def __init__(self, w):
        self.w = w
        self.ops = Ops(w.rng)
        self.ops.fam = w.args.get("fam")
        # classes that are made when first used
        for i in range(300):
            op = self.ops.make(i)
            attempt(op.call, op.operands)
        gc.collect()
        gc.disable()

    def refs(self):
        return [sys.getrefcount(o) for o in self.ops.things]

    def same(self, a, b):
        return a == b

    def one(self, rng):
        w, ops = self.w, self.ops
        seed = rng.getrandbits(40)
        ref = ops.make(seed)
        name = ref.name
        before = [ops.state(o) for o in ref.operands]
        e0, r0 = attempt(ref.call, ref.operands)
        r0 = result(ops, ref, e0, r0)
        after = [ops.state(o) for o in ref.operands]
        if e0 and e0.startswith("MemoryError"):
            return
        ref = None
        forever = rng.random() < .4
        quiet = 0
        i = 0
        n = 0
        stride = 1
        faults = 0
        w.beat("%s seed %d" % (name, seed))
        while quiet < 8 and n < 120:
            n += 1
            op = ops.make(seed)
            rc = self.refs()
            rco = [0 if isinstance(o, (str, int)) else sys.getrefcount(o) for o in op.operands]
            w.beat("%s seed %d allocation %d%s" % (name, seed, i, " on" if forever else ""))
            e, r, msg = faulty(op.call, op.operands, i, 0 if forever else i + 1)
            ctx = "%s of %s, allocation %d fails%s" % (name, [short(b) for b in before], i, ", and all later ones" if forever else "")
            now = [ops.state(o) for o in op.operands]
            if e is None:
                quiet += 1
                r = result(ops, op, e, r)
                if e0:
                    w.violate("oom:%s:no-error" % name, "%s: no error is raised, with memory %s is" % (ctx, e0))
                elif r != r0 and op.cmp != "drop":
                    w.violate("oom:%s:wrong-result" % name, "%s: no error, and the result is %s instead of %s" % (ctx, short(r), short(r0)))
                elif now != after and op.cmp != "drop":
                    w.violate("oom:%s:wrong-state" % name, "%s: no error, and the operands are %s instead of %s" % (ctx, short(now), short(after)))
            elif e == "MemoryError":
                quiet = 0
                faults += 1
                r = None
                # what remains is between before and after, and works
                for b, a, x in zip(before, after, now):
                    if not ops.between(b, a, x) and op.cmp != "drop":
                        w.violate("oom:%s:state" % name, "%s: an operand is then %s, before it was %s, after a completed operation %s" % (ctx, short(x), short(b), short(a)))
                clones = [ops.clone(o) for o in op.operands]
                if [ops.state(o) for o in clones] != now:
                    w.violate("oom:%s:state-clone" % name, "%s: copies of the operands differ: %s %s" % (ctx, short(now), short([ops.state(o) for o in clones])))
                e1, r1 = attempt(op.call, clones)
                e2, r2 = attempt(op.call, op.operands)
                r1, r2 = result(ops, op, e1, r1), result(ops, op, e2, r2)
                if op.cmp is None:
                    if (e1, r1) != (e2, r2):
                        w.violate("oom:%s:repeat" % name, "%s: repeated with memory: %s, should be %s" % (ctx, short((e2, r2)), short((e1, r1))))
                    s1, s2 = [ops.state(o) for o in clones], [ops.state(o) for o in op.operands]
                    if s1 != s2:
                        w.violate("oom:%s:repeat-state" % name, "%s: operands after it is repeated with memory: %s, should be %s" % (ctx, short(s2), short(s1)))
                elif e2 and not (op.cmp == "once" and "already" in e2):
                    w.violate("oom:%s:repeat" % name, "%s: repeated with memory: %s" % (ctx, e2))
                s1 = s2 = r1 = r2 = clones = None
            elif e0 and (e0.startswith(e) or e == "SystemError"):
                # The interpreter itself loses an exception when it can not
                # allocate what goes with it.
                quiet += 1
            elif name == "root-getattr" and e == "AttributeError" and "no frame" in msg:
                # The interpreter tells no error from a thread without frames.
                faults += 1
            else:
                w.violate("oom:%s:%s" % (name, e), "%s: raises %s" % (ctx, msg))
                quiet = 0
            r = None
            op = None
            rc2 = self.refs()
            # all but this: the operands went with the operation
            if rc2 != rc:
                pass
            op = ops.make(seed)
            rc2 = self.refs()
            rco2 = [0 if isinstance(o, (str, int)) else sys.getrefcount(o) for o in op.operands]
            if rc2 != rc or rco2 != rco:
                # Collected garbage can change them once: what counts is a drift.
                op = None
                counts = []
                for j in range(4):
                    op = ops.make(seed)
                    faulty(op.call, op.operands, i, 0 if forever else i + 1)
                    op = None
                    gc.collect()
                    op = ops.make(seed)
                    counts.append(self.refs() + [0 if isinstance(o, (str, int)) else sys.getrefcount(o) for o in op.operands])
                    op = None
                d = [(j, list(c)) for j, c in enumerate(zip(*counts)) if all(x < y for x, y in zip(c, c[1:])) or all(x > y for x, y in zip(c, c[1:]))]
                if d:
                    w.violate("oom:%s:references" % name, "%s: reference counts of the operands and members change each time: %s" % (ctx, d[:5]))
            op = None
            if e == "MemoryError" and rng.random() < .08:
                self.leak(name, ctx, seed, i, 0 if forever else i + 1)
            if n > 40:
                stride += max(1, i // 12)
            i += stride
        w.event("faults", faults)
        w.event("op:" + name.split("-")[0].rstrip("|&^~=<>!"))
        w.event("ops")
        w.case(sig=(name, min(faults, 50), forever, seed), sample="%s: %d faults" % (name, faults))

    def leak(self, name, ctx, seed, i, stop):
        """Blocks that a failure leaves behind, each time."""
        def batch(n):
            op = e = None
            gc.collect()
            b = sys.getallocatedblocks()
            for j in range(n):
                op = self.ops.make(seed)
                e = faulty(op.call, op.operands, i, stop)
                op = e = None
            gc.collect()
            return sys.getallocatedblocks() - b
        batch(5)
        # Free lists make small numbers meaningless.
        if batch(25) >= 25:
            gs = []
            for k in range(3):
                gs.append(batch(400))
                if gs[-1] < 380:
                    break
            else:
                self.w.violate("oom:%s:leak" % name, "%s: %.1f memory blocks are left behind each time" % (ctx, min(gs) / 400))
        self.w.event("leak-batches")


def short(x):
    r = repr(x)
    return r if len(r) < 500 else r[:250] + " ... " + r[-200:]


def run_e02(w):
    rng = w.rng
    m = Memory(w)
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        m.one(rng)


class Callbacks:
    """Code called back raises."""

    def __init__(self, w):
        import vcb
        self.w = w
        self.cb = vcb
        self.T = vcb.T
        self.ops = vcb.CbOps(w.rng)
        for i in range(300):
            op = self.ops.make(i)
            attempt(op.call, op.operands)
        gc.collect()
        gc.disable()

    def refs(self, op):
        return [sys.getrefcount(o) for o in self.ops.things] + [0 if isinstance(o, (str, int)) else sys.getrefcount(o) for o in op.operands]

    def call(self, op, at, once, cls):
        """(exception, result): raises in the call back number at."""
        T = self.T
        exc = cls("boom")
        T.reset(at, once, exc)
        try:
            r = op.call(*op.operands)
            T.at = -1
            return None, r, exc, T.fired
        except BaseException as e:
            T.at = -1
            e.__traceback__ = None
            return e, None, exc, T.fired

    def one(self, rng):
        w, ops, T = self.w, self.ops, self.T
        seed = rng.getrandbits(40)
        T.reset()
        ref = ops.make(seed)
        name = ref.name
        w.beat("%s seed %d" % (name, seed))
        before = [ops.state(o) for o in ref.operands]
        T.reset()
        e0, r0, _, _ = self.call(ref, -1, True, self.cb.Boom)
        total = T.n
        r0 = result(ops, ref, e0, r0)
        after = [ops.state(o) for o in ref.operands]
        w.event("op:" + name.split("-")[0].rstrip("|&^~=<>!"))
        w.event("calls-back", total)
        if e0 is not None:
            w.event("natural-errors")
            if isinstance(e0, (SystemError, MemoryError)):
                w.violate("cb:%s:%s" % (name, type(e0).__name__), "%s of %s raises %r" % (name, [short(b) for b in before], e0))
            e0 = e0.with_traceback(None)
        s0 = None if e0 is None else (type(e0), str(e0))
        ref = None
        points = list(range(total))
        if total > 10:
            points = rng.sample(points, 8) + [0, total - 1]
        points.append(-1)
        for at in points:
            once = rng.random() < .7
            cls = rng.choice((self.cb.Boom, self.cb.Boom, self.cb.Halt))
            op = ops.make(seed)
            rc = self.refs(op)
            ctx = "%s of %s, call back %d of %d raises%s" % (name, [short(b) for b in before], at, total, "" if once else " and all later ones")
            w.beat("%s seed %d call back %d" % (name, seed, at))
            e, r, exc, fired = self.call(op, at, once, cls)
            now = [ops.state(o) for o in op.operands]
            if fired:
                w.event("raised")
                if e is None:
                    w.violate("cb:%s:swallowed" % name, "%s: the operation completes, with %s" % (ctx, short(result(ops, op, None, r))))
                elif e is not exc:
                    w.violate("cb:%s:replaced" % name, "%s: what the caller gets is %r" % (ctx, e))
            else:
                w.event("not-raised")
                s = None if e is None else (type(e), str(e))
                x = result(ops, op, e, r)
                if s != s0 and not (s and s0 and s[0] is s0[0]):
                    w.violate("cb:%s:changes" % name, "%s: ends with %r, at first with %r" % (ctx, e, e0))
                elif x != r0 or now != after:
                    w.violate("cb:%s:changes" % name, "%s: result and operands %s, at first %s" % (ctx, short((x, now)), short((r0, after))))
            r = x = None
            if e is not None:
                for b, a, x in zip(before, after, now):
                    if not ops.between(b, a, x) and op.cmp != "drop":
                        w.violate("cb:%s:state" % name, "%s: an operand is then %s, before it was %s, after a completed operation %s" % (ctx, short(x), short(b), short(a)))
                # it works when repeated
                clones = [ops.clone(o) for o in op.operands]
                for o in clones:
                    if type(o).__name__ == "Maker":
                        o.c = o.make()
                o = None
                st = [ops.state(o) for o in clones]
                if st != now:
                    w.violate("cb:%s:state-clone" % name, "%s: copies of the operands differ: %s %s" % (ctx, short(now), short(st)))
                op1 = ops.make(seed)
                op1.operands = clones
                e1, r1, _, _ = self.call(op1, -1, True, cls)
                e2, r2, _, _ = self.call(op, -1, True, cls)
                t1, t2 = [None if y is None else type(y) for y in (e1, e2)]
                r1, r2 = result(ops, op, e1, r1), result(ops, op, e2, r2)
                if op.cmp is None:
                    if (t1, r1) != (t2, r2):
                        w.violate("cb:%s:repeat" % name, "%s: repeated: %s, should be %s" % (ctx, short((e2, r2)), short((e1, r1))))
                    s1, s2 = [ops.state(o) for o in clones], [ops.state(o) for o in op.operands]
                    if s1 != s2:
                        w.violate("cb:%s:repeat-state" % name, "%s: operands after it is repeated: %s, should be %s" % (ctx, short(s2), short(s1)))
                op1 = clones = e1 = e2 = r1 = r2 = s1 = s2 = y = None
                wr = weakref.ref(exc)
                exc = e = None
                if wr() is not None:
                    gc.collect()
                    if wr() is not None:
                        w.violate("cb:%s:exception-kept" % name, "%s: the exception stays alive, held by %s" % (ctx, short(gc.get_referrers(wr()))))
            exc = e = op = None
            op = ops.make(seed)
            rc2 = self.refs(op)
            if rc2 != rc:
                counts = []
                for j in range(4):
                    op = ops.make(seed)
                    e = self.call(op, at, once, cls)
                    e = op = None
                    gc.collect()
                    op = ops.make(seed)
                    counts.append(self.refs(op))
                    op = None
                d = [(j, list(c)) for j, c in enumerate(zip(*counts)) if all(x < y for x, y in zip(c, c[1:])) or all(x > y for x, y in zip(c, c[1:]))]
                if d:
                    w.violate("cb:%s:references" % name, "%s: reference counts of the operands and members change each time: %s" % (ctx, d[:5]))
            op = None
            if rng.random() < (.3 if "select" in name else .05):
                self.leak(name, ctx, seed, at, once, cls)
        w.event("ops")
        w.case(sig=(name, min(total, 50), s0 and s0[0].__name__, seed), sample="%s: %d call backs, %s" % (name, total, s0 and s0[0].__name__))

    def leak(self, name, ctx, seed, at, once, cls):
        def batch(n):
            op = e = None
            gc.collect()
            b = sys.getallocatedblocks()
            for j in range(n):
                op = self.ops.make(seed)
                e = self.call(op, at, once, cls)
                op = e = None
            gc.collect()
            return sys.getallocatedblocks() - b
        batch(5)
        if batch(25) >= 25:
            gs = []
            for k in range(3):
                gs.append(batch(400))
                if gs[-1] < 380:
                    break
            else:
                self.w.violate("cb:%s:leak" % name, "%s: %.1f memory blocks are left behind each time" % (ctx, min(gs) / 400))
        self.w.event("leak-batches")


def run_e01(w):
    rng = w.rng
    m = Callbacks(w)
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        m.one(rng)


def main(w):
    {"E01": run_e01, "E02": run_e02}[w.args["mode"]](w)


if __name__ == "__main__":
    vw.main(main)
