"""E03: queries that are interrupted. A Halt is raised at some point of the
Python code of guppy, as a KeyboardInterrupt would be; afterwards the session
has to answer as one that was never interrupted."""
import dis
import gc
import io
import math
import os
import sys
import types
import weakref

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vw
from vgraph import Graph, seal_modules

BY = ["byid", "bytype", "byclodo", "bysize", "bymodule", "byunity", "byrcs", "byvia", "bydicts", "byidset", "byclass", "byprod"]


class Halt(BaseException):
    pass


class Interrupts:
    def __init__(self, w):
        import guppy
        import guppy.heapy
        self.w = w
        self.guppy = guppy
        self.dir = os.path.dirname(guppy.__file__) + os.sep
        seal_modules()
        from guppy import sets
        from guppy.heapy import heapyc
        self.sets = sets
        self.heapyc = heapyc
        self.n = 0
        self.codes = {}
        self.prof = {}
        self.storing = {}
        # everything that is made at first use
        g = self.graph(w.rng)
        g.sel = g.objs
        hp = self.session(g)
        for name, q in self.queries(w.rng):
            try:
                q(hp, g)
            except Exception:
                pass
        gc.collect()
        gc.disable()
        gc.freeze()
        # Interrupts during a collection end up here
        sys.unraisablehook = lambda u: w.event("unraisable")

    def graph(self, rng):
        self.n = getattr(self, "n", 0) + 1
        return Graph(rng, rng.choice([4, 8, 15, 30]), "vi%d" % self.n, nodesets=(self.sets.mutnodeset, self.sets.immnodeset), nodegraphs=self.heapyc.NodeGraph)

    def session(self, g):
        hp = self.guppy.hpy()
        hp.View.root = g.root
        return hp

    def queries(self, rng):
        by = rng.choice(BY)
        by2 = rng.choice(BY)
        i = rng.randrange(1000)

        def iso(hp, g, k=3):
            return hp.iso(*[g.sel[(i + j * 7) % len(g.sel)] for j in range(k)])

        def parts(x):
            return sorted(str(p) for p in x.parts)

        def tab(x):
            # Equally big rows come in any order.
            return sorted(l.split(None, 1)[-1] for l in str(x).splitlines())

        def dump(x):
            f = io.StringIO()
            x.stat.dump(f)
            return sorted(l for l in f.getvalue().splitlines() if "timemade" not in l)
        Q = [("heap", lambda hp, g: tab(hp.heap())),
             ("heap-" + by, lambda hp, g: tab(getattr(hp.heap(), by))),
             ("iso-" + by, lambda hp, g: tab(getattr(iso(hp, g), by))),
             ("parts-" + by, lambda hp, g: parts(getattr(iso(hp, g, 6), by))),
             ("referrers", lambda hp, g: tab(iso(hp, g).referrers.byid)),
             ("referrers-" + by, lambda hp, g: tab(getattr(iso(hp, g).referrers, by))),
             ("referents", lambda hp, g: tab(iso(hp, g).referents.byid)),
             ("rcs", lambda hp, g: tab(iso(hp, g, 8).byrcs)),
             ("via", lambda hp, g: tab(iso(hp, g, 8).byvia)),
             ("owners", lambda hp, g: tab(iso(hp, g, 9).owners)),
             ("dominos", lambda hp, g: tab(iso(hp, g).dominos.byid)),
             ("domisize", lambda hp, g: iso(hp, g).domisize),
             ("imdom", lambda hp, g: tab(iso(hp, g).imdom.byid)),
             ("shpaths", lambda hp, g: sorted(str(iso(hp, g, 2).shpaths).splitlines())),
             ("pathsin", lambda hp, g: sorted(l.split(None, 1)[-1] for l in str(iso(hp, g, 1).pathsin).splitlines())),
             ("pathsout", lambda hp, g: sorted(l.split(None, 1)[-1] for l in str(iso(hp, g, 1).pathsout).splitlines())),
             ("rp", lambda hp, g: str(iso(hp, g, 1).rp)),
             ("kind", lambda hp, g: (str(iso(hp, g, 4).kind), str(getattr(iso(hp, g, 4), by).kind))),
             ("sel", lambda hp, g: tab(getattr(hp.heap(), by)[0].byid) if by in ("byid", "byunity") else len(getattr(hp.heap(), by).parts)),
             ("and", lambda hp, g: tab((hp.heap() & getattr(iso(hp, g, 5), by).kind).byid)),
             ("algebra", lambda hp, g: tab(((hp.heap() - iso(hp, g, 3)) | iso(hp, g, 2)) ^ iso(hp, g, 4))),
             ("type", lambda hp, g: tab((hp.heap() & hp.Type(type(g.sel[i % len(g.sel)]))).byid)),
             ("clodo", lambda hp, g: tab((hp.heap() & hp.Clodo(dictof=type(g.sel[i % len(g.sel)]))).byid)),
             ("rcskind", lambda hp, g: tab((hp.heap() & hp.Rcs(hp.iso(g.sel[i % len(g.sel)]).bytype.kind)).byid)),
             ("two", lambda hp, g: tab(getattr(getattr(hp.heap(), by)[0], by2)) if by in ("byid", "byunity") else None),
             ("dump", lambda hp, g: dump(hp.heap())),
             ("stat", lambda hp, g: tab(hp.heap().stat)),
             ("size", lambda hp, g: (hp.heap().size, hp.heap().count, iso(hp, g).size)),
             ("relheap", lambda hp, g: None),
             ]
        return Q

    # -- interrupts

    def points(self, code):
        """The offsets in code where the interpreter delivers signals: at the
        start, after calls, and at jumps back."""
        r = self.codes.get(code)
        if r is None:
            r = self.codes[code] = set()
            after = False
            for x in dis.get_instructions(code):
                if after or x.opname.startswith("JUMP_BACKWARD") and "NO_INTERRUPT" not in x.opname:
                    r.add(x.offset)
                after = x.opname.startswith("CALL") and "INTRINSIC" not in x.opname or x.opname == "RESUME"
        return r

    def stores(self, code):
        r = self.storing.get(code)
        if r is None:
            r = self.storing[code] = any(x.opname == "STORE_ATTR" and x.argval in ("limitframe", "referrers_lock") for x in dis.get_instructions(code))
        return r

    def events(self, f, at, within=None):
        """Call f; raise Halt at the at-th point of the code of guppy where it
        can be interrupted, or the at-th while the code within is running."""
        d = self.dir
        n = 0
        inside = 0
        returned = None

        def local(frame, event, arg):
            nonlocal n, inside, returned
            if event == "return":
                returned = frame.f_code
                if frame.f_code is within:
                    inside -= 1
            elif event == "opcode" and (within is None or inside) and frame.f_lasti in self.points(frame.f_code):
                n += 1
                if n == at:
                    self.where = "%s:%s %s" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_code.co_name)
                    f, st = frame, []
                    self.cleanup = False
                    while f is not None and len(st) < 12:
                        name = f.f_code.co_name
                        # The lock and the limit are not taken back when it is
                        # the statement itself that is interrupted.
                        if name == "__setattr__" or not st and (self.stores(f.f_code) or returned and self.stores(returned)):
                            self.cleanup = True
                        st.append("%s:%s" % (name, f.f_lineno))
                        f = f.f_back
                    self.stack = " < ".join(st)
                    raise Halt
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(d):
                return None
            nonlocal inside
            if frame.f_code is within:
                inside += 1
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return local
        self.where = None
        old = sys.gettrace()
        sys.settrace(glob)
        try:
            r = f()
        except Halt:
            sys.settrace(old)
            return True, n, None
        except Exception as e:
            sys.settrace(old)
            return e, n, None
        finally:
            sys.settrace(old)
        return False, n, r

    def profile(self, rng, name, q, g):
        """The points below each function, in the first call of q."""
        if name not in self.prof or rng.random() < .02:
            r, stack, n, depth = {}, [], 0, {}

            def local(frame, event, arg):
                nonlocal n
                if event == "return":
                    c, start = stack.pop()
                    depth[c] -= 1
                    if not depth[c]:
                        r[c] = r.get(c, 0) + n - start
                elif event == "opcode" and frame.f_lasti in self.points(frame.f_code):
                    n += 1
                    if n > 20000:
                        raise Halt
                return local

            def glob(frame, event, arg):
                c = frame.f_code
                if not c.co_filename.startswith(self.dir):
                    return None
                stack.append((c, n))
                depth[c] = depth.get(c, 0) + 1
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return local
            hp = self.session(g)
            sys.settrace(glob)
            try:
                self.answer(q, hp, g)
            except Halt:
                pass
            finally:
                sys.settrace(None)
            self.prof[name] = {c: k for c, k in r.items() if k}
        return self.prof[name]

    def answer(self, q, hp, g):
        try:
            return q(hp, g)
        except Exception as e:
            return "%s: %s" % (type(e).__name__, str(e)[:200])

    def reference(self, g, Q):
        # The first query makes dicts of attributes, and fills caches of types.
        want = None
        for k in range(4):
            ref = self.session(g)
            old, want = want, {}
            for name, q in Q:
                self.w.beat("reference " + name)
                want[name] = self.answer(q, ref, g)
            if want == old:
                return want
        self.w.event("unsettled")

    def one(self, rng):
        w = self.w
        g = self.graph(rng)
        w.beat("graph")
        nodes = self.session(g).heap().nodes
        if sum(type(x) is weakref.ReferenceType for x in nodes) > 50:
            # What a session makes is seen by the others, through the subclasses of object.
            w.event("unsealed")
            return
        g.sel = [o for o in g.objs if o in nodes]
        nodes = None
        if not g.sel:
            return
        Q = self.queries(rng)
        Q = [x for x in Q if x[0] != "relheap"]
        cached = ("referrers", "rcs", "via", "owners", "rcskind", "clodo", "pathsin", "rp", "imdom")
        Q = rng.sample(Q, 4) + rng.sample([x for x in Q if x[0].startswith(cached)], 2)
        want = self.reference(g, Q)
        if want is None:
            return
        log = []
        hp = self.session(g)
        for k in range(rng.choice([1, 2, 4, 8])):
            name, q = rng.choice(Q[-2:] if rng.random() < .4 else Q)
            at = int(math.exp(rng.uniform(0, math.log(10000))))
            within = None
            if rng.random() < .8:
                # A function that the query calls, and a point somewhere below
                prof = self.profile(rng, name, q, g) or {self.one.__code__: 1}
                prof = sorted(prof.items(), key=lambda c: (c[0].co_filename, c[0].co_firstlineno, c[0].co_name))
                if rng.random() < .4:
                    # Where queries keep what they have found
                    prof = [x for x in prof if x[0].co_filename.endswith("View.py")] or prof
                within, n = rng.choice(prof)
                at = min(int(math.exp(rng.uniform(0, math.log(n + 1)))), rng.randint(1, n))
            w.beat("interrupt %s at %d in %s" % (name, at, within))
            halted, n, r = self.events(lambda: q(hp, g), at, within)
            if self.where and self.cleanup:
                return w.event("unjudged")
            w.event("events", n)
            if halted is True:
                w.event("interrupted")
                log.append("%s interrupted at %s (event %d)" % (name, self.where, at))
            elif halted is False:
                w.event("completed")
                log.append(name)
                if r != want[name]:
                    self.bad(log, name, r, want[name], "completed")
                    return
            else:
                natural = "%s: %s" % (type(halted).__name__, str(halted)[:200]) == want[name]
                if self.where and natural and any(x in self.stack for x in ("clear_callback", "clear_setup", "__call__")):
                    # Called by the garbage collector, where nothing can be raised.
                    w.event("swallowed")
                elif self.where:
                    w.event("replaced")
                    log.append("%s interrupted at %s (event %d): ends with %r" % (name, self.where, at, halted))
                    w.violate("interrupt:replaced:%s" % self.where.split(":")[0], "the interrupt becomes another error; raised in %s\n" % self.stack + "\n".join(log))
                    return
                elif not natural:
                    self.bad(log, name, repr(halted), want[name], "error")
                    return
            r = None
            again = [(name, q)] + rng.sample(Q, rng.choice([0, 1, 3]))
            for name, q in again:
                w.beat("after interrupt: %s; %s" % (name, (log or [""])[-1]))
                x = self.answer(q, hp, g)
                w.event("answers")
                if x != want[name]:
                    log.append("then " + name)
                    self.bad(log, name, x, want[name], "afterwards")
                    return
            if rng.random() < .7:
                # The graph changes; a collection makes that known.
                g.wire(rng.choice([1, 3, 8]))
                at = int(math.exp(rng.uniform(0, math.log(200))))
                w.beat("collection interrupted at %d" % at)
                halted, n, r = self.events(gc.collect, at)
                if self.where and self.cleanup:
                    return w.event("unjudged")
                if self.where:
                    log.append("new edges and a collection, interrupted at %s (event %d)" % (self.where, at))
                    w.event("collection-interrupted")
                else:
                    log.append("new edges and a collection")
                w.event("changed")
                want = self.reference(g, Q)
                if want is None:
                    return
                for name, q in rng.sample(Q, 3) + [(name, q) for name, q in Q if name.startswith(cached)]:
                    w.beat("after change: %s" % name)
                    x = self.answer(q, hp, g)
                    w.event("answers")
                    if x != want[name]:
                        log.append("then " + name)
                        self.bad(log, name, x, want[name], "after a change")
                        return
        w.case(sig=tuple(log), sample="; ".join(log))

    # -- the root: where frames end

    def deep(self, n, f):
        if n:
            return self.deep(n - 1, f)
        return f()

    def frames(self, hp):
        r = {}
        for f in (hp.heap() & hp.Type(types.FrameType)).nodes:
            if f.f_code.co_filename == __file__:
                r[f.f_code.co_name] = r.get(f.f_code.co_name, 0) + 1
        return r

    def limit(self, rng):
        w = self.w
        hp = self.guppy.hpy()
        ref = self.guppy.hpy()
        qs = [("heap", lambda: hp.heap()), ("imdom", lambda: hp.iso(qs).imdom), ("referrers", lambda: hp.iso(qs).referrers), ("dominos", lambda: hp.iso(qs).dominos),
              ("referents", lambda: hp.iso(qs).referents), ("shpaths", lambda: str(hp.iso(qs).shpaths)), ("heapbytype", lambda: str(hp.heap().bytype)), ("domisize", lambda: hp.iso(qs).domisize)]
        log = []
        self.frames(ref)
        self.frames(hp)
        for k in range(rng.choice([1, 2, 3])):
            name, q = rng.choice(qs)
            at = int(math.exp(rng.uniform(0, math.log(1500))))
            d = rng.choice([0, 1, 3, 6])
            w.beat("root: interrupt %s at %d" % (name, at))
            halted, n, r = self.events(lambda: self.deep(d, q), at)
            r = None
            if self.where and self.cleanup:
                return w.event("unjudged")
            if halted is True:
                log.append("%s interrupted at %s, depth %d" % (name, self.where, d))
            elif halted is not False:
                self.w.violate("interrupt:replaced", "%r; %s" % (halted, self.where))
                return
            d = rng.choice([0, 1, 3, 6])
            got = self.deep(d, lambda: self.frames(hp))
            want = self.deep(d, lambda: self.frames(ref))
            w.event("answers")
            w.event("frames-seen", sum(want.values()))
            if got != want:
                w.violate("interrupt:frames", "the frames in the heap are, by name\n%r\nfor a session that was not interrupted\n%r\n%s" % (got, want, "\n".join(log)))
                return
        w.case(sig=("root",) + tuple(log), sample="; ".join(log))

    def bad(self, log, name, got, want, what):
        a, b = str(got), str(want)
        if isinstance(got, list) and isinstance(want, list):
            a = "\n".join(x for x in got if x not in want)
            b = "\n".join(x for x in want if x not in got)
        where = next((l.split(" at ")[1].split(":")[0] + ":" + l.split(" (event")[0].split()[-1] for l in log if " interrupted at " in l), "none")
        self.w.violate("interrupt:%s" % where, "%s, %s: the session answers\n%s\none that was not interrupted\n%s\n%s" % (what, name, a[:1500], b[:1500], "\n".join(log)))


def main(w):
    rng = w.rng
    m = Interrupts(w)
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        if i % 25 == 3:
            m.limit(rng)
            continue
        m.one(rng)
        if i % 20 == 0:
            gc.collect()


if __name__ == "__main__":
    vw.main(main)
