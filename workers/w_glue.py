"""Composition monitor: X01.

Part A generates packages whose modules are composed by directives (constants,
methods, getters, imports, search paths, preloads, changeable and settable
attributes) and drives several sessions over them in random order, with a model
of what each attribute is in each session.  Part B does the same with the modules
that come with the system: what an attribute is must not depend on what was asked
for before, and what can be changed is changed in one session only.
"""
import importlib
import os
import random
import sys
import types

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vw

RT = types.ModuleType("vgrt")


class Obj:
    def __init__(self, origin, session, deps=()):
        self.origin, self.session, self.deps = origin, session, deps

    def __repr__(self):
        return "<%s of %s>" % (self.origin, self.session)

    def __getattr__(self, name):
        # the parts of an object: one object each
        if not name.startswith("part"):
            raise AttributeError(name)
        p = self.__dict__[name] = Obj("%s.%s" % (self.origin, name), self.session)
        return p


class Fail(Exception):
    pass


class Runtime:
    """What the generated modules report to."""

    def __init__(self):
        self.session = None
        self.runs = {}
        self.fails = {}
        self.hooks = []
        self.refuse = False

    def run(self, origin, *deps):
        k = self.session, origin
        if self.fails.get(k, 0) > 0:
            self.fails[k] -= 1
            raise Fail(origin)
        self.runs[k] = self.runs.get(k, 0) + 1
        return Obj(origin, self.session, deps)

    def const(self, origin):
        return Obj(origin, None)

    def hook(self, inter, origin, value):
        if self.refuse:
            raise Fail(origin)
        self.hooks.append((self.session, origin, value))


class Mod:
    def __init__(self, path, package, clamp):
        self.path, self.package, self.clamp = path, package, clamp
        self.attrs = {}          # name -> ('const',)|('getter', deps)|('method',)|('import', mod, name)|...
        self.subs = {}
        self.chgable, self.setable, self.preload, self.gluepath = [], [], [], []
        self.hooks = set()
        self.fail = set()

    @property
    def name(self):
        return ".".join(self.path)


class Tree:
    """A random tree of modules."""

    def __init__(self, rng, top):
        self.rng, self.top = rng, top
        self.mods = []
        self.root = self.module((top,), True)
        for i in range(rng.choice([1, 2, 3, 4])):
            n = "m%d" % i
            package = rng.random() < .35
            m = self.module(self.root.path + (n,), package)
            self.root.subs[n] = m
            if package:
                for j in range(rng.choice([1, 2])):
                    k = "s%d" % j
                    m.subs[k] = self.module(m.path + (k,), rng.random() < .1)
        self.bypath = {m.path: m for m in self.mods}
        self.serial = 0
        # attributes are added in an order, and refer to earlier ones only
        order = list(self.mods)
        done = []
        for r in range(rng.choice([4, 8, 14])):
            for m in rng.sample(order, len(order)):
                if rng.random() < .6:
                    self.attr(m, done)
        self.searchers = [m for m in self.mods if not m.subs and self.parent(m) and rng.random() < .3]
        for m in self.mods:
            if m.clamp:
                self.extras(m)

    def module(self, path, package):
        m = Mod(path, package, self.rng.random() < .88)
        self.mods.append(m)
        return m

    def fresh(self, p):
        self.serial += 1
        return "%s%d" % (p, self.serial)

    def parent(self, m):
        return self.bypath.get(m.path[:-1])

    def depth(self, m, a):
        d = m.attrs[a]
        return d[-1] if d[0] in ("getter", "import", "path", "part") else 0

    def route(self, m, t, sep="."):
        """An expression from an interface to module m to module t, or None."""
        rng = self.rng
        ways = []
        if t.path[:-1] == m.path[:-1] and t is not m:
            ways.append(("_parent", t.path[-1]))
        if t.path[:len(m.path)] == m.path and t is not m:
            ways.append(t.path[len(m.path):])
        ways.append(("_root",) + t.path)
        if m.path[:-1] and t.path == m.path[:-1]:
            ways.append(("_parent",))
        return rng.choice(ways)

    def attr(self, m, done):
        rng = self.rng
        if not m.clamp:
            n = self.fresh("g")
            m.attrs[n] = ("global",)
            done.append((m, n))
            return
        kind = rng.choice(["const", "const", "getter", "getter", "getter", "method", "import", "import", "global", "modimport",
                           "alias", "chgable", "setable", "shadow", "sys", "part", "part"])
        if kind == "const":
            n = self.fresh("c")
            m.attrs[n] = ("const",)
        elif kind == "shadow":
            n = self.fresh("w")
            m.attrs[n] = ("shadow",)
        elif kind == "method":
            n = self.fresh("f")
            m.attrs[n] = ("method",)
        elif kind == "global":
            n = self.fresh("g")
            m.attrs[n] = ("global",)
        elif kind == "getter":
            n = self.fresh("x")
            deps = []
            for t, a in rng.sample(done, min(len(done), rng.choice([0, 0, 1, 1, 2]))):
                if self.depth(t, a) < 5 and t.attrs[a][0] != "sys":
                    w = () if t is m else self.route(m, t)
                    deps.append((w, t, a))
            m.attrs[n] = ("getter", deps, 1 + max([0] + [self.depth(t, a) for _, t, a in deps]))
            if rng.random() < .15:
                m.fail.add(n)
        elif kind == "import":
            c = [(t, a) for t, a in done if t is not m and self.depth(t, a) < 5 and t.attrs[a][0] not in ("chgable", "setable", "sys")]
            if not c:
                return
            t, a = rng.choice(c)
            w = self.route(m, t)
            if w[0] not in ("_parent", "_root"):
                return
            if a in m.attrs:
                return
            n = a
            m.attrs[n] = ("import", t, a, w, 1 + self.depth(t, a))
            return          # a name in two places: not to be imported again
        elif kind == "part":
            # a part of an object that a getter makes: the path goes through
            # the object
            c = [(t, a) for t, a in done if t is not m and self.depth(t, a) < 5 and t.attrs[a][0] in ("const", "getter", "global")]
            if not c:
                return
            f = [(t, a) for t, a in c if a in t.fail]
            t, a = rng.choice(f if f and rng.random() < .6 else c)
            w = self.route(m, t)
            if w[0] not in ("_parent", "_root"):
                return
            n = self.fresh("part")
            m.attrs[n] = ("part", t, a, w, 1 + self.depth(t, a))
            return
        elif kind == "modimport":
            c = [t for t in self.mods if t is not m and t.path[:-1]]
            if not c:
                return
            t = rng.choice(c)
            w = self.route(m, t)
            if w[0] not in ("_parent", "_root") or len(w) < 2 or t.path[-1] in m.subs or t.path[-1] in m.attrs:
                return
            if m.path[:len(t.path)] == t.path and False:
                return
            m.attrs[t.path[-1]] = ("mod", t, w)
            return
        elif kind == "alias":
            n = self.fresh("l")
            t = rng.choice(self.mods)
            if t is m:
                return
            m.attrs[n] = ("alias", t, self.route(m, t))
            return
        elif kind == "chgable":
            n = self.fresh("h")
            m.chgable.append(n)
            m.attrs[n] = ("chgable", rng.choice(["getter", "const", "none"]))
            if rng.random() < .4:
                m.hooks.add(n)
            if m.attrs[n][1] == "none":
                return
        elif kind == "setable":
            n = self.fresh("k")
            m.setable.append(n)
            m.attrs[n] = ("setable", rng.choice(["getter", "none"]))
            if rng.random() < .4:
                m.hooks.add(n)
            return
        elif kind == "sys":
            if "time" not in m.attrs and "time" not in m.subs:
                m.attrs["time"] = ("sys", "time")
            return
        done.append((m, n))

    def extras(self, m):
        rng = self.rng
        if rng.random() < .4:
            p = [n for n, d in m.attrs.items() if d[0] in ("const", "method") or (d[0] == "getter" and n not in m.fail and all(t is m and t.attrs[a][0] == "const" for _, t, a in d[1]))]
            m.preload = rng.sample(p, min(len(p), rng.choice([1, 2])))
        if m in self.searchers:
            c = [t for t in self.parent(m).subs.values() if t is not m and not t.subs and t not in self.searchers
                 and not any(d[0] == "import" and n in m.attrs for n, d in t.attrs.items())]
            rng.shuffle(c)
            for t in c[:2]:
                m.gluepath.append(("_parent", t.path[-1]))
                for n, d in t.attrs.items():
                    if n not in m.attrs and d[0] in ("const", "getter", "global") and n not in m.fail and self.depth(t, n) < 5:
                        m.attrs[n] = ("path", t, n, 1 + self.depth(t, n))
        if rng.random() < .25:
            a, b = self.fresh("y"), self.fresh("y")
            m.attrs[a] = ("cycle", b)
            m.attrs[b] = ("cycle", a)

    def mayfail(self, m, n):
        d = m.attrs[n]
        if n in m.fail:
            return True
        if d[0] == "getter":
            return any(self.mayfail(t, a) for _, t, a in d[1])
        if d[0] in ("import", "path", "part"):
            return self.mayfail(d[1], d[2])
        return False

    # -- source
    def source(self, m):
        L = ["from vgrt import RT"]
        L.append("_home_ = %r" % m.name)
        body = []
        imports = []
        for n, d in m.attrs.items():
            o = "%s.%s" % (m.name, n)
            if d[0] == "global":
                L.append("%s = RT.const(%r)" % (n, o))
            elif d[0] == "shadow":
                L.append("%s = RT.const(%r)" % (n, "hidden." + o))
                body.append("    %s = RT.const(%r)" % (n, o))
            elif d[0] == "const" or (d[0] == "chgable" and d[1] == "const"):
                body.append("    %s = RT.const(%r)" % (n, o))
            elif d[0] == "method":
                body.append("    def %s(self, *args):\n        return %r, self, args" % (n, o))
            elif d[0] == "getter":
                deps = "".join(", " + ".".join(("self",) + w + (a,)) for w, t, a in d[1])
                body.append("    def _get_%s(self):\n        return RT.run(%r%s)" % (n, o, deps))
            elif d[0] in ("chgable", "setable") and d[1] == "getter":
                body.append("    def _get_%s(self):\n        return RT.run(%r)" % (n, o))
            elif d[0] == "cycle":
                body.append("    def _get_%s(self):\n        return self.%s" % (n, d[1]))
            elif d[0] == "alias":
                body.append("    def _get_%s(self):\n        return %s" % (n, ".".join(("self",) + d[2])))
            elif d[0] == "import":
                imports.append((".".join(d[3]), n))
            elif d[0] == "part":
                imports.append((".".join(d[3] + (d[2],)), n))
            elif d[0] == "mod":
                imports.append((".".join(d[2][:-1]), n))
            elif d[0] == "sys":
                imports.append(("_root", d[1]))
            if n in m.hooks:
                body.append("    def _set_%s(self, value):\n        RT.hook(self, %r, value)" % (n, o))
        if m.clamp:
            L.append("class _GLUECLAMP_:")
            L.append("    mine_ = %r" % m.name)
            if m.chgable:
                L.append("    _chgable_ = %r" % (tuple(m.chgable),))
            if m.setable:
                L.append("    _setable_ = %r" % (tuple(m.setable),))
            if m.preload:
                L.append("    _preload_ = %r" % (tuple(m.preload),))
            if m.gluepath:
                gp = [".".join(g) for g in m.gluepath]
                L.append("    _GLUEPATH_ = %r" % (", ".join(gp) if self.rng.random() < .5 else gp,))
            if imports:
                bymod = {}
                for p, n in imports:
                    bymod.setdefault(p, []).append(n)
                L.append("    _imports_ = (")
                for p, ns in bymod.items():
                    if self.rng.random() < .5:
                        L.append("        %r," % ("%s:%s" % (p, ", ".join(ns))))
                    else:
                        L += ["        %r," % ("%s:%s" % (p, n)) for n in ns]
                L.append("    )")
            L += body
        return "\n".join(L) + "\n"

    def write(self, base):
        for m in self.mods:
            if m.package:
                d = os.path.join(base, *m.path)
                os.makedirs(d, exist_ok=True)
                f = os.path.join(d, "__init__.py")
            else:
                d = os.path.join(base, *m.path[:-1])
                os.makedirs(d, exist_ok=True)
                f = os.path.join(d, m.path[-1] + ".py")
            with open(f, "w") as fh:
                fh.write(self.source(m))


class Session:
    def __init__(self, key, root):
        self.key, self.root = key, root
        self.known = {}        # origin -> object
        self.set = {}          # origin -> value assigned
        self.fixed = {}        # (path of the access, id of interface) -> object
        self.inters = {}       # module name -> interfaces seen


class PartA:
    def __init__(self, w):
        import guppy.etc.Glue as Glue
        self.w, self.Glue = w, Glue
        self.base = os.path.join(w.scratch, "glue")
        os.makedirs(self.base)
        sys.path.insert(0, self.base)
        self.n = 0
        self.canon = {}
        RT.RT = None
        sys.modules["vgrt"] = RT

    def bad(self, key, msg):
        self.w.violate(key, msg + "\n" + self.story())

    def story(self):
        src = "\n".join("--- %s (%s)\n%s" % (m.name, "package" if m.package else "module", self.tree.source(m)) for m in self.tree.mods)
        return "history:\n%s\nmodules:\n%s" % ("\n".join(self.log[-60:]), src[:3500])

    def one(self, rng):
        self.n += 1
        top = "vgp%d_%d" % (self.w.idx, self.n)
        self.tree = t = Tree(rng, top)
        t.write(self.base)
        importlib.invalidate_caches()
        self.rt = RT.RT = Runtime()
        self.log = []
        self.keep = []
        sessions = [Session("s%d" % i, self.Glue.Root()) for i in range(rng.choice([1, 2, 2, 3]))]
        for s in sessions:
            for m in t.mods:
                for a in m.fail:
                    if rng.random() < .6:
                        self.rt.fails[s.key, "%s.%s" % (m.name, a)] = rng.choice([1, 1, 2])
        ok = True
        for i in range(rng.choice([30, 80, 200])):
            s = rng.choice(sessions)
            ok = self.op(rng, s)
            if not ok:
                break
        if ok:
            for s in sessions:
                ok = ok and self.final(s)
        if ok:
            self.independent(sessions)
        for k in [k for k in sys.modules if k == top or k.startswith(top + ".")]:
            del sys.modules[k]
        self.w.case(sig=("A", tuple(sorted((m.name.count("."), m.package, d[0]) for m in t.mods for d in m.attrs.values())), len(sessions)),
                    sample="%d modules, %d attributes, %d sessions" % (len(t.mods), sum(len(m.attrs) for m in t.mods), len(sessions)))

    def reach(self, rng, s, m):
        """An interface to module m in the session, reached some way."""
        known = s.inters.get(m.name)
        if known and rng.random() < .5:
            return rng.choice(known)
        starts = [(s.root, ())]
        for n, l in s.inters.items():
            if l:
                starts.append((rng.choice(l), tuple(n.split("."))))
        x, at = rng.choice(starts)
        if at and not (m.path[:len(at)] == at):
            if m.path[:-1] == at[:-1] and len(at) > 1:
                p = ("_parent", m.path[-1])
            else:
                p = ("_root",) + m.path
        else:
            p = m.path[len(at):]
        y = x
        for a in p:
            y = getattr(y, a)
        l = s.inters.setdefault(m.name, [])
        if not any(z is y for z in l):
            l.append(y)
        return y

    def expect(self, s, m, n):
        """(kind, origin) that the attribute has to be."""
        d = m.attrs[n]
        if d[0] in ("import", "path"):
            return self.expect(s, d[1], d[2])
        return m, n, d

    def access(self, s, y, m, n):
        """Access and judge.  -> False after a violation."""
        w, rt = self.w, self.rt
        t, a, d = self.expect(s, m, n)
        o = "%s.%s" % (t.name, a)
        what = "%s: %s.%s (%s)" % (s.key, m.name, n, m.attrs[n][0])
        self.log.append(what)
        before = dict(rt.fails)
        try:
            v = getattr(y, n)
        except Fail as e:
            if not any(before.get((s.key, x), 0) > rt.fails.get((s.key, x), 0) for _, x in before):
                self.bad("failed-without-cause", "%s: %r" % (what, e))
                return False
            w.event("getter-failed")
            return True
        except self.Glue.RecursionError:
            if d[0] != "cycle":
                self.bad("recursion", "%s: taken for a recursive definition" % what)
                return False
            w.event("recursive")
            return True
        except AttributeError as e:
            if d[0] in ("chgable", "setable") and d[1] == "none" and o not in s.set:
                w.event("unset")
                return True
            self.bad("unresolved", "%s: AttributeError %s" % (what, e))
            return False
        if any(before.get(k) != rt.fails.get(k) for k in before):
            self.bad("failure-lost", "%s: a getter failed on the way, but the access gave %r" % (what, v))
            return False
        w.event("access-" + m.attrs[n][0])
        if d[0] == "cycle":
            self.bad("cycle-resolved", "%s: gave %r" % (what, v))
            return False
        if d[0] in ("chgable", "setable") and d[1] == "none" and o not in s.set:
            self.bad("from-nowhere", "%s: was never set but is %r" % (what, v))
            return False
        if o in s.set:
            if v is not s.set[o]:
                self.bad("assignment-lost", "%s: was set to %r but is %r" % (what, s.set[o], v))
                return False
            return True
        if d[0] == "part":
            e, ea, ed = self.expect(s, d[1], d[2])
            if not isinstance(v, Obj) or v.origin != "%s.%s.%s" % (e.name, ea, n):
                self.bad("wrong-object", "%s: is %r, not the %s of %s.%s" % (what, v, n, e.name, ea))
                return False
            if v.session != (s.key if ed[0] == "getter" else None):
                self.bad("other-session", "%s: is %r" % (what, v))
                return False
            if s.known.setdefault(v.origin, v) is not v:
                self.bad("not-one-object", "%s: is %r, but was %r" % (what, v, s.known[v.origin]))
                return False
            return True
        if d[0] in ("mod", "alias"):
            tm = d[1]
            if not self.is_module(y, v, tm):
                self.bad("wrong-module", "%s: not module %s: %r" % (what, tm.name, v))
                return False
            key = (id(y), n)
            self.keep.append(y)
            if s.fixed.setdefault(key, v) is not v:
                self.bad("not-stable", "%s: another interface object at a later access: %r" % (what, v))
                return False
            l = s.inters.setdefault(tm.name, [])
            if not any(z is v for z in l):
                l.append(v)
            return True
        if d[0] == "sys":
            import time
            if getattr(v, "_module", v) is not time:
                self.bad("wrong-module", "%s: %r" % (what, v))
                return False
            return True
        if d[0] == "method":
            r = v(1, 2)
            if r[0] != o or r[2] != (1, 2) or not self.is_module(y, r[1], t):
                self.bad("method", "%s: calling it gave %r" % (what, r))
                return False
        else:
            if not isinstance(v, Obj) or v.origin != o:
                self.bad("wrong-object", "%s: is %r, not %s" % (what, v, o))
                return False
            shared = d[0] in ("const", "global", "shadow") or (d[0] == "chgable" and d[1] == "const")
            if shared != (v.session is None) or (not shared and v.session != s.key):
                self.bad("other-session", "%s: is %r" % (what, v))
                return False
            if d[0] == "getter":
                for dep, (_, tt, aa) in zip(v.deps, d[1]):
                    e, ea, ed = self.expect(s, tt, aa)
                    if isinstance(dep, Obj) and dep.origin != "%s.%s" % (e.name, ea) and ("%s.%s" % (e.name, ea)) not in s.set:
                        if ed[0] not in ("chgable", "setable"):
                            self.bad("wrong-dependency", "%s: made with %r for %s" % (what, dep, aa))
                            return False
                    if ed[0] in ("getter", "const", "global"):
                        known = s.known.setdefault("%s.%s" % (e.name, ea), dep)
                        if known is not dep:
                            self.bad("not-one-object", "%s: was made with another %s than the session has" % (what, dep))
                            return False
        if s.known.setdefault(o, v) is not v:
            self.bad("not-one-object", "%s: is %r, but was %r" % (what, v, s.known[o]))
            return False
        if rt.runs.get((s.key, o), 0) > 1:
            self.bad("getter-run-twice", "%s: its getter ran %d times" % (what, rt.runs[s.key, o]))
            return False
        return True

    def is_module(self, y, v, m):
        if type(v) is not type(y) or not isinstance(v, self.Glue.Interface):
            return False
        return v._module is sys.modules.get(m.name)

    def op(self, rng, s):
        w, t, rt = self.w, self.tree, self.rt
        rt.session = s.key
        m = rng.choice(t.mods)
        try:
            y = self.reach(rng, s, m)
        except Fail:
            return True
        if not self.is_module(s.root, y, m):
            self.bad("wrong-module", "%s: not module %s: %r" % (s.key, m.name, y))
            return False
        r = rng.random()
        if not m.attrs:
            return True
        n = rng.choice(list(m.attrs))
        d = m.attrs[n]
        if r < .62:
            return self.access(s, y, m, n)
        if r < .66:
            for i in range(2):
                self.log.append("%s: %s.nowhere" % (s.key, m.name))
                try:
                    v = getattr(y, "nowhere")
                except AttributeError:
                    w.event("absent")
                else:
                    self.bad("from-nowhere", "%s: %s.nowhere is %r" % (s.key, m.name, v))
                    return False
            return True
        if r < .72:
            # the fixed points of the tree
            self.log.append("%s: tree of %s" % (s.key, m.name))
            top = getattr(y._root, t.top)
            if not self.is_module(y, top, t.root) or y._root is not y._root:
                self.bad("root", "%s: the root seen from %s is another" % (s.key, m.name))
                return False
            p = t.parent(m)
            if p is not None and not self.is_module(y, y._parent, p):
                self.bad("parent", "%s: the parent of %s is %r" % (s.key, m.name, y._parent))
                return False
            w.event("fixed-points")
            return True
        return self.assign(rng, s, y, m, n)

    def assign(self, rng, s, y, m, n):
        w, rt = self.w, self.rt
        if rng.random() < .6 and (m.chgable or m.setable):
            n = rng.choice(m.chgable + m.setable)
        d = m.attrs[n]
        o = "%s.%s" % (m.name, n)
        v = Obj("value%d" % rng.randrange(10**6), s.key)
        rt.refuse = n in m.hooks and rng.random() < .3
        resolved = o in s.known or o in s.set
        what = "%s: %s.%s (%s) = %r%s" % (s.key, m.name, n, d[0], v, " refused by the hook" if rt.refuse else "")
        self.log.append(what)
        hooked = len(rt.hooks)
        chg = n in m.chgable
        if chg:
            want = "ok"
        elif n in m.setable:
            want = "no" if resolved else "ok"
            if not resolved and d[1] == "getter" and rt.runs.get((s.key, o)):
                want = "no"
        else:
            want = "no"
        if want == "ok" and rt.refuse:
            want = "fail"
        try:
            setattr(y, n, v)
            got = "ok"
        except ValueError:
            got = "no"
        except Fail:
            got = "fail"
        rt.refuse = False
        if got != want:
            self.bad("assignment-" + want, "%s: %s, not %s" % (what, got, want))
            return False
        w.event("assign-%s-%s" % (d[0] if d[0] in ("chgable", "setable") else "other", got))
        new = rt.hooks[hooked:]
        if got == "ok":
            s.set[o] = v
            if n in m.hooks and not (len(new) == 1 and new[0][0] == s.key and new[0][1] == o and new[0][2] is v):
                self.bad("hook", "%s: the hook was told %r" % (what, new))
                return False
            # The same value again is no change.
            if rng.random() < .3:
                setattr(y, n, v)
        # seen through every interface to the module in this session
        for z in s.inters.get(m.name, ()):
            if not self.access(s, z, m, n):
                return False
            if rng.random() < .2 and got == "no" and m.clamp:
                pass
        return True

    def final(self, s):
        self.rt.session = s.key
        for m in self.tree.mods:
            try:
                y = self.reach(random.Random(0), s, m)
            except Fail:
                continue
            for n in m.attrs:
                for i in range(4):
                    if not self.access(s, y, m, n):
                        return False
        return True

    def independent(self, sessions):
        """No object made for one session is in another; one getter run each."""
        for i, s in enumerate(sessions):
            for o, v in s.known.items():
                if isinstance(v, Obj) and v.session not in (None, s.key):
                    self.bad("other-session", "%s has %s = %r" % (s.key, o, v))
                    return
            for t in sessions[:i]:
                for o, v in s.known.items():
                    if o in t.known and isinstance(v, Obj):
                        if (v is t.known[o]) != (v.session is None):
                            self.bad("other-session", "%s and %s have %s = %r and %r" % (s.key, t.key, o, v, t.known[o]))
                            return
                        self.w.event("compared-sessions")
        for (k, o), c in self.rt.runs.items():
            if c > 1:
                self.bad("getter-run-twice", "the getter of %s ran %d times in %s" % (o, c, k))
                return


MODULES = ["Use", "View", "Part", "Path", "RefPat", "OutputHandling", "UniSet", "Classifiers", "ImpSet", "Spec", "Doc"]
SKIP = {("Use", "monitor"), ("Use", "pb"), ("Use", "tc_repr"), ("Use", "tc_adapt")}
CHANGE = [
    ("Part", "line_length", [40, 60, 100]), ("Part", "backup_suffix", [".b", "~"]),
    ("OutputHandling", "max_more_lines", [3, 7, 20]),
    ("Path", "srcname_1", ["Me", "It"]), ("Path", "srcname_n", ["Them"]),
    ("RefPat", "depth", [2, 3, 9]), ("RefPat", "line_length", [50, 90]),
    ("UniSet", "max_summary_length", [20, 50]), ("UniSet", "auto_convert_iter", [True, 0]), ("UniSet", "auto_convert_type", [True, 0]),
    ("UniSet", "out_reach_module_names", [("UniSet",)]),
    ("View", "is_rg_update_all", [1, 0, False]),
    ("Use", "reprefix", ["a.", "b."]), ("Use", "default_reprefix", ["c.", "d."]),
    ("Use", "gcobjs", None), ("Use", "relheap", None),
]


class PartB:
    def __init__(self, w):
        import guppy
        self.w, self.guppy = w, guppy
        self.alone = {}
        self.names = {}
        for mn in MODULES:
            mod = importlib.import_module("guppy.heapy." + mn)
            clamp = mod._GLUECLAMP_
            names = set()
            for c in clamp.__mro__:
                if c in (object, guppy.etc.Glue.Interface):
                    continue
                for a in vars(c):
                    if a.startswith("_get_"):
                        names.add(a[5:])
                    elif not a.startswith("_") and not a.startswith("set"):
                        names.add(a)
            for d in getattr(clamp, "_imports_", ()):
                names |= {a.strip() for a in d.split(":")[1].split(",")}
            names |= {"_hiding_tag_"} if "_hiding_tag_" in getattr(clamp, "_preload_", ()) else set()
            self.names[mn] = sorted(a for a in names if (mn, a) not in SKIP and not a.startswith("__"))

    def fp(self, v):
        """What an attribute is, whatever session it is of."""
        I = self.guppy.etc.Glue.Interface
        if isinstance(v, I):
            return "module", v._module.__name__
        if isinstance(v, type):
            return "class", v.__module__, v.__qualname__
        if isinstance(v, (types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
            return "function", getattr(v, "__module__", None), v.__qualname__
        if isinstance(v, types.ModuleType):
            return "pymodule", v.__name__
        if isinstance(v, (int, str, float, bytes, bool, type(None))):
            return "value", repr(v)
        return "object", type(v).__module__, type(v).__qualname__

    def get_alone(self, mn, a):
        k = mn, a
        if k not in self.alone:
            r = self.guppy.Root()
            try:
                self.alone[k] = self.fp(getattr(getattr(r.guppy.heapy, mn), a))
            except Exception as e:
                self.alone[k] = ("raises", type(e).__name__)
        return self.alone[k]

    def one(self, rng):
        w, guppy = self.w, self.guppy
        ss = [guppy.Root().guppy.heapy if rng.random() < .6 else guppy.hpy()._parent for i in range(rng.choice([2, 3]))]
        seen = [{} for _ in ss]
        set_ = [{} for _ in ss]
        log = []
        paths = [{} for _ in ss]

        def inter(i, mn):
            x = ss[i]
            k = rng.randrange(4)
            if k == 0:
                return getattr(x, mn)
            if k == 1:
                return getattr(x._root.guppy.heapy, mn)
            if k == 2:
                return getattr(getattr(x, rng.choice(MODULES))._parent, mn)
            return getattr(x.Use._parent, mn)

        allnames = [(mn, a) for mn in MODULES for a in self.names[mn]]
        for j in range(rng.choice([40, 120])):
            i = rng.randrange(len(ss))
            if rng.random() < .75:
                mn, a = rng.choice(allnames)
                y = inter(i, mn)
                log.append("s%d %s.%s" % (i, mn, a))
                try:
                    v = getattr(y, a)
                    f = self.fp(v)
                except Exception as e:
                    v, f = None, ("raises", type(e).__name__)
                w.event("real-access")
                k = mn, a
                if k in set_[i]:
                    if v is not set_[i][k]:
                        w.violate("real-assignment-lost", "%s.%s was set to %r but is %r\n%s" % (mn, a, set_[i][k], v, log))
                        return
                    continue
                if f != self.get_alone(mn, a) and not self.depends(mn, a, set_[i]):
                    w.violate("real-order-dependent", "%s.%s is %s after other accesses, but alone %s\n%s" % (mn, a, f, self.alone[k], log))
                    return
                if f[0] == "module":
                    z = getattr(y, a)
                    if z is not v:
                        w.violate("real-not-stable", "%s.%s: another object at the second access\n%s" % (mn, a, log))
                        return
                elif f[0] not in ("raises",):
                    if f[0] == "function" and seen[i].get(k) is not None:
                        same = seen[i][k] == v or seen[i][k].__qualname__ == v.__qualname__
                    else:
                        same = seen[i].setdefault(k, v) is v
                    if not same:
                        w.violate("real-not-stable", "%s.%s: %r, but was %r\n%s" % (mn, a, v, seen[i][k], log))
                        return
                    z = getattr(y, a)
                    if z is not v and not (f[0] == "function" and z == v):
                        w.violate("real-not-stable", "%s.%s: another object at the second access\n%s" % (mn, a, log))
                        return
                    if f[0] == "object":
                        for l in range(len(ss)):
                            if l != i and seen[l].get(k) is v and f[1].startswith("guppy") and "heapyc" not in f[1] and "setsc" not in f[1]:
                                if self.per_session(f):
                                    w.violate("real-shared", "%s.%s: one %s object in two sessions\n%s" % (mn, a, f, log))
                                    return
                        w.event("real-object")
            elif rng.random() < .6:
                mn, a, vals = rng.choice(CHANGE)
                y = inter(i, mn)
                others = [(getattr(getattr(ss[l], mn), a) if rng.random() < .5 else None) for l in range(len(ss))]
                if vals is None:
                    v = ss[i].Use.iso(object()) if rng.random() < .5 else ss[i].Use.Nothing
                else:
                    v = rng.choice(vals)
                log.append("s%d %s.%s = %r" % (i, mn, a, v if vals else "a set"))
                setattr(y, a, v)
                set_[i][mn, a] = v
                w.event("real-change")
                for q in range(4):
                    if getattr(inter(i, mn), a) is not v:
                        w.violate("real-assignment-lost", "%s.%s was set to %r but is %r\n%s" % (mn, a, v, getattr(inter(i, mn), a), log))
                        return
                for l in range(len(ss)):
                    if l == i:
                        continue
                    x = getattr(getattr(ss[l], mn), a)
                    if (mn, a) in set_[l]:
                        bad = x is not set_[l][mn, a]
                    elif others[l] is not None:
                        bad = x is not others[l] and x != others[l]
                    else:
                        bad = vals is not None and self.fp(x) != self.get_alone(mn, a) and not self.depends(mn, a, set_[l])
                    if bad:
                        w.violate("real-other-session", "%s.%s was set in session %d and is now %r in session %d\n%s" % (mn, a, i, x, l, log))
                        return
            else:
                # what can not be changed
                mn, a = rng.choice(allnames)
                clamp = importlib.import_module("guppy.heapy." + mn)._GLUECLAMP_
                if a in getattr(clamp, "_chgable_", ()) or a in getattr(clamp, "_setable_", ()):
                    continue
                y = inter(i, mn)
                log.append("s%d %s.%s = a new object" % (i, mn, a))
                try:
                    setattr(y, a, object())
                except ValueError:
                    w.event("real-refused")
                else:
                    w.violate("real-changed", "%s.%s could be changed\n%s" % (mn, a, log))
                    return
        w.case(sig=("B", tuple(log[:8])))

    def per_session(self, f):
        return True

    def depends(self, mn, a, st):
        """Values that are made from a changeable one."""
        return a == "reprefix" and ("Use", "default_reprefix") in st

    def effects(self, rng):
        """A change shows in what the session prints, and in no other session."""
        w, guppy = self.w, self.guppy
        a, b = guppy.hpy(), guppy.hpy()
        objs = [[] for i in range(3)] + [{}, set(), "x", 1.5, b"q", 7] + [type("T%d" % i, (), {})() for i in range(rng.randrange(1, 25))]
        def shown(h):
            s = h.idset(objs).bytype
            return repr(s).splitlines(), s
        base, _ = shown(b)
        n = rng.choice([1, 2, 5, 11, 40])
        a._parent.OutputHandling.max_more_lines = n
        got, s = shown(a)
        if shown(b)[0] != base:
            w.violate("effect-other-session", "max_more_lines in one session changed the other:\n%s" % "\n".join(shown(b)[0]))
            return
        rows = [l for l in got if l[:7].strip().isdigit()]
        k = len(list(s.partition.get_rows()))
        if len(rows) != min(n, k) and not (k == n + 1 and len(rows) == k):
            w.violate("effect-lines", "max_more_lines = %d, %d rows:\n%s" % (n, k, "\n".join(got)))
            return
        p = rng.choice(["hq.", "zz.y."])
        x = a.Type(int)
        if rng.random() < .5:
            repr(x), repr(a.iso(types).shpaths), repr(a.iso(types).rp)
        a.reprefix = p
        if repr(x) != p + repr(b.Type(int))[len("hpy()."):] or not repr(b.Type(int)).startswith("hpy().Type("):
            w.violate("effect-prefix", "prefix %r: %r; other session %r" % (p, repr(x), repr(b.Type(int))))
            return
        r, q = repr(a.iso(types).shpaths), repr(b.iso(types).shpaths)
        for t, pre in (r, p), (q, "hpy()."):
            if not all(y.split(": ", 1)[1].startswith(pre + "Root") for y in t.splitlines()):
                w.violate("effect-prefix", "prefix %r, paths:\n%s" % (pre, t))
                return
        l = rng.choice([60, 72, 120])
        a._parent.Part.line_length = l
        t = type("U" * 150, (), {})()
        was = repr(b.iso(t))
        ra = repr(a.iso(t)).splitlines()
        if repr(b.iso(t)) != was or max(map(len, ra)) > l or (ra == was.splitlines() and l < 78):
            w.violate("effect-width", "line_length %d:\n%s\nother session:\n%s" % (l, "\n".join(ra), was))
            return
        import io
        f = io.StringIO()
        c, d = guppy.hpy(), guppy.hpy()
        c._parent.OutputHandling.output_file = f
        if d._parent.OutputHandling.output_file is f:
            w.violate("effect-other-session", "output_file is shared by sessions")
            return
        w.event("effects")
        w.case(sig=("effects", n, k, p, l))


def main(w):
    a, b = PartA(w), PartB(w)
    i = 0
    while w.more(i, w.args["n"]):
        r = i % 10
        i += 1
        if r < 6:
            a.one(w.rng)
        elif r < 9:
            b.one(w.rng)
        else:
            b.effects(w.rng)


if __name__ == "__main__":
    vw.main(main)
