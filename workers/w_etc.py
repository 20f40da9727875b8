"""X02, X03: the support tools (regular expressions, automata, permutations, rewriting)."""
import itertools
import os
import signal
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vw

MAXLEN = 5


# ---------------------------------------------------------------- languages up to MAXLEN
def cat(A, B, L):
    return {x + y for x in A for y in B if len(x) + len(y) <= L}


def star(A, L):
    r = {""}
    new = r
    while new:
        new = cat(new, A - {""}, L) - r
        r |= new
    return r


def lang(t, L):
    k = t[0]
    if k == "w":
        return {t[1]} if len(t[1]) <= L else set()
    if k == "+":
        r = {""}
        for x in t[1:]:
            r = cat(r, lang(x, L), L)
        return r
    if k == "|":
        r = set()
        for x in t[1:]:
            r |= lang(x, L)
        return r
    A = lang(t[1], L)
    if k == "*":
        return star(A, L)
    if k == "p":
        return cat(A, star(A, L), L)
    if k == "?":
        return A | {""}
    raise AssertionError(k)


class Bad(Exception):
    pass


def parse(s):
    """The notation of shform(''): atoms, (), |, postfix * + ?."""
    i = 0

    def alt():
        nonlocal i
        xs = [seq()]
        while i < len(s) and s[i] == "|":
            i += 1
            xs.append(seq())
        return xs[0] if len(xs) == 1 else ("|",) + tuple(xs)

    def seq():
        nonlocal i
        xs = []
        while i < len(s) and s[i] not in "|)":
            c = s[i]
            if c == "(":
                i += 1
                if i < len(s) and s[i] == ")":
                    x = ("w", "")
                else:
                    x = alt()
                if i >= len(s) or s[i] != ")":
                    raise Bad(s)
                i += 1
            elif c in "*+?":
                raise Bad(s)
            else:
                x = ("w", c)
                i += 1
            while i < len(s) and s[i] in "*+?":
                x = ({"*": "*", "+": "p", "?": "?"}[s[i]], x)
                i += 1
            xs.append(x)
        return xs[0] if len(xs) == 1 else ("+",) + tuple(xs)

    r = alt()
    if i != len(s):
        raise Bad(s)
    return r


def gen(rng, depth, alpha, closures=True):
    k = rng.random()
    if depth <= 0 or k < 0.2:
        return ("w", "".join(rng.choice(alpha) for _ in range(rng.choice((0, 1, 1, 1, 2, 2, 3)))))
    if k < 0.5:
        return ("+",) + tuple(gen(rng, depth - 1, alpha, closures) for _ in range(rng.choice((2, 2, 3))))
    if k < 0.8:
        return ("|",) + tuple(gen(rng, depth - 1, alpha, closures) for _ in range(rng.choice((1, 2, 2, 3, 4))))
    if closures and k < 0.93:
        return (rng.choice("*p"), gen(rng, depth - 1, alpha, closures))
    return ("?", gen(rng, depth - 1, alpha, closures))


def genwords(rng, alpha):
    """A union of words: the input that factoring works on."""
    n = rng.randrange(1, 9)
    pool = ["".join(rng.choice(alpha) for _ in range(rng.randrange(0, 3))) for _ in range(3)]
    ws = []
    for _ in range(n):
        w = "".join(rng.choice(pool) for _ in range(rng.randrange(0, 3))) if rng.random() < 0.7 else \
            "".join(rng.choice(alpha) for _ in range(rng.randrange(0, 5)))
        ws.append(("w", w[:6]))
    return ("|",) + tuple(ws)


def genconcs(rng, alpha):
    """A union of concatenations with closures."""
    atoms = [("w", c) for c in alpha] + [("*", ("w", alpha[0])), ("p", ("w", alpha[0])), ("*", ("w", alpha[-1])),
                                        ("?", ("w", alpha[0])), ("*", ("|", ("w", alpha[0]), ("w", alpha[-1])))]
    return ("|",) + tuple(("+",) + tuple(rng.choice(atoms) for _ in range(rng.randrange(1, 5)))
                          for _ in range(rng.randrange(1, 6)))


def build(R, t, rng):
    k = t[0]
    if k == "w":
        s = t[1]
        if len(s) == 1 and rng.random() < 0.5:
            return R.Single(s)
        if not s:
            return rng.choice((lambda: R.Epsilon, lambda: R.Seq()))()
        return R.Seq(*s)
    if k == "+":
        ch = [build(R, x, rng) for x in t[1:]]
        m = rng.random()
        if m < 0.4:
            return R.Concatenation(*ch)
        if m < 0.7:
            return R.concat(*ch)
        r = ch[0]
        for x in ch[1:]:
            r = r + x
        return r
    if k == "|":
        ch = [build(R, x, rng) for x in t[1:]]
        if len(ch) == 1 or rng.random() < 0.6:
            return R.Union(*ch)
        r = ch[0]
        for x in ch[1:]:
            r = r | x
        return r
    return build(R, t[1], rng)({"*": "*", "p": "+", "?": "?"}[k])


def words_of(re, L):
    out = []
    for n in range(L + 1):
        for x in re.get_words_of_length(n):
            out.append("".join(str(y) for y in tuple(x)))
    return out


def hasclosure(t):
    return t[0] in "*p" or any(isinstance(x, tuple) and hasclosure(x) for x in t[1:])


def infinite(t):
    """No language here is empty, so a closure of anything but the empty word makes it infinite."""
    if t[0] in "*p" and lang(t[1], 4) - {""}:
        return True
    return any(isinstance(x, tuple) and infinite(x) for x in t[1:])


class TooSlow(Exception):
    pass


def limited_time(w, fn, seconds=3):
    """Skip a case that takes too long (the tools are exponential)."""
    def handler(*a):
        raise TooSlow
    signal.signal(signal.SIGALRM, handler)
    signal.alarm(seconds)
    try:
        try:
            return fn()
        finally:
            signal.alarm(0)
    except TooSlow:
        w.event("skipped-slow")


def show(s, n=8):
    return sorted(s, key=lambda w: (len(w), w))[:n]


class REMon:
    def __init__(self, w):
        import guppy.etc.RE as R
        self.R = R
        self.w = w

    def same(self, what, re, want, L, t):
        """The expression denotes the language want, by its rendering and by its enumeration."""
        w = self.w
        s = re.shform("")
        try:
            got = lang(parse(s), L)
        except Bad:
            w.violate("notation:" + what, "%s of %r renders as malformed %r" % (what, t, s))
            return False
        w.event("language")
        if got != want:
            w.violate("language:" + what, "%s of %r is %r: missing words %s, extra words %s"
                      % (what, t, s, show(want - got), show(got - want)))
            return False
        ws = words_of(re, min(L, 4))
        w.event("enumerated", len(ws))
        if len(ws) != len(set(ws)):
            w.violate("enumerate-dup:" + what, "%s of %r (%s) enumerates a word twice: %s" % (what, t, s, ws))
            return False
        wa = {x for x in want if len(x) <= 4}
        if set(ws) != wa:
            w.violate("enumerate:" + what, "%s of %r (%s): enumeration lacks %s, has extra %s"
                      % (what, t, s, show(wa - set(ws)), show(set(ws) - wa)))
            return False
        return True

    def one(self, t, rng):
        w, R = self.w, self.R
        L = MAXLEN
        want = lang(t, L)
        re = build(R, t, rng)
        w.beat("re %r" % (t,))
        if not self.same("construction", re, want, L, t):
            return
        for _ in range(rng.choice((1, 2, 3))):
            k = rng.randrange(8)
            if k == 0:
                re = re.reversed()
                want = {x[::-1] for x in want}
                name = "reversed"
            elif k in (1, 2, 3):
                re = re.simplified()
                name = "simplified"
            elif k == 4:
                us = re.unionsplitted()
                w.event("unionsplitted")
                re = R.Union(*us)
                name = "unionsplitted"
            elif k == 5:
                n = rng.randrange(0, 4)
                lim = re.limited(n)
                got = lang(parse(lim.shform("")), L)
                w.event("limited")
                if not got <= want:
                    w.violate("limited-extra", "limited(%d) of %r (%s) has extra words %s" % (n, t, re.shform(""), show(got - want)))
                    return
                need = {x for x in want if len(x) <= n}
                if not need <= got:
                    w.violate("limited-lacks", "limited(%d) of %r (%s) lacks short words %s" % (n, t, re.shform(""), show(need - got)))
                    return
                # a limited expression is finite: it can be listed
                if len(lim.shform("")) < 60:
                    got2 = {"".join(map(str, tuple(x))) for x in lim.sequni()}
                    w.event("listed")
                    if {x for x in got2 if len(x) <= L} != got:
                        w.violate("listed", "sequni of limited(%d) of %r differs from its language: %s" % (n, t, show(got ^ {x for x in got2 if len(x) <= L})))
                        return
                continue
            elif k == 6 and not hasclosure(t) and len(re.shform("")) < 60:
                try:
                    re = re.sequni()
                except R.InfiniteError:
                    continue        # simplification may have introduced a closure, it cannot for finite languages
                name = "sequni"
            elif k == 7:
                lens = {len(x) for x in want}
                m = re.get_words_memo()
                n = rng.randrange(0, 5)
                for i, xs in m.get_words_of_length_upto(n):
                    got = {"".join(map(str, tuple(x))) for x in xs}
                    if got != {x for x in want if len(x) == i} or i not in lens:
                        w.violate("upto", "words up to %d of %r: wrong words of length %d: %s" % (n, t, i, show(got)))
                        return
                w.event("upto")
                continue
            else:
                continue
            w.event("op-" + name)
            if not self.same(name, re, want, L, t):
                return

    def infinite(self, t, rng):
        """Listing an infinite expression is refused."""
        R = self.R
        re = build(R, t, rng)
        try:
            re.sequni()
        except R.InfiniteError:
            self.w.event("infinite-refused")
            return
        # fine only if the language is finite anyway
        if infinite(t):
            self.w.violate("infinite", "sequni of the infinite %r did not raise" % (t,))


# ---------------------------------------------------------------- automata
class FSAMon:
    def __init__(self, w):
        import guppy.etc.FSA as F
        import guppy.etc.RE as R
        self.F, self.R, self.w = F, R, w

    def accepts(self, table, start, finals, word):
        s = start
        for c in word:
            row = table.get(s)
            if row is None or c not in row:
                return False
            s = row[c]
        return s in finals

    def one(self, rng):
        w = self.w
        n = rng.randrange(1, 7)
        alpha = "abc"[:rng.randrange(1, 4)]
        states = ["q%d" % i for i in range(n)]
        nfa = {}
        dens = rng.choice((0.3, 0.6, 0.9, 1.0))
        det = rng.random() < 0.4
        for s in states:
            for c in alpha:
                if rng.random() < dens:
                    k = 1 if det else rng.choice((1, 1, 2, 2, 3))
                    nfa[s, c] = [rng.choice(states) for _ in range(k)]
        s0 = states[0]
        if not any(k[0] == s0 for k in nfa):
            nfa[s0, alpha[0]] = [rng.choice(states)]
        w.beat("nfa %r" % (nfa,))
        f = self.F.FiniteAutomaton(s0)
        items = list(nfa.items())
        rng.shuffle(items)
        for (s, c), ns in items:
            f.add_transition(s, c, *ns)
        words = ["".join(p) for k in range(6 if len(alpha) < 3 else 5) for p in itertools.product(alpha, repeat=k)]
        for rnd in range(rng.choice((1, 2))):
            univ = rng.random() < 0.3
            fin = set(rng.sample(states, rng.randrange(0, n + 1)))
            finals = dict.fromkeys(fin, 1)
            comps = f.get_composites()
            for comp in comps:
                if univ:
                    if all(s in fin for s in comp):
                        finals[comp] = 1
                elif any(s in fin for s in comp):
                    finals[comp] = 1

            # the definition: run the automaton on sets of states; in universal mode every
            # state must survive
            def accept(word):
                cur = {s0}
                for c in word:
                    nxt = set()
                    for s in cur:
                        ns = nfa.get((s, c))
                        if ns is None:
                            if univ:
                                return False
                        else:
                            nxt.update(ns)
                    cur = nxt
                    if not cur:
                        return False
                return all(s in fin for s in cur) if univ else any(s in fin for s in cur)

            want = {x for x in words if accept(x)}
            got = {x for x in words if self.accepts(f.table, s0, finals, x)}
            w.event("determinised")
            if got != want:
                w.violate("determinise", "the automaton %r (finals %s, %s) made deterministic accepts wrongly: missing %s extra %s"
                          % (nfa, sorted(fin), "all" if univ else "any", show(want - got), show(got - want)))
                return
            d = f.get_minimized_dfa(finals)
            got = {x for x in words if self.accepts(d.table, d.start_state, d.final_states, x)}
            w.event("minimised")
            w.event("automaton-words", len(words))
            if got != want:
                w.violate("minimise", "the minimised automaton of %r (finals %s, %s) accepts wrongly: missing %s extra %s"
                          % (nfa, sorted(fin), "all" if univ else "any", show(want - got), show(got - want)))
                return
            if len(d.get_all_states()) > len(f.get_all_states()) + 1:
                w.violate("minimise-larger", "the minimised automaton of %r has more states" % (nfa,))
                return
            syms = set(f.get_all_input_symbols())
            if syms != {c for (s, c) in nfa}:
                w.violate("symbols", "input symbols of %r are reported as %s" % (nfa, syms))
                return
            # determinism and minimality: states with the same symbols must be distinguishable
            re = self.R.SolveFSA(d)
            w.event("solved")
            if not want:
                if len(re.shform("")) < 400:
                    ws = words_of(re, 4)
                    if ws:
                        w.violate("solve-empty", "the expression of the automaton %r (finals %s) has the words %s" % (nfa, sorted(fin), ws[:5]))
                        return
                continue
            for what in ("solution", "simplified solution"):
                s = re.shform("")
                if len(s) > 3000:
                    break
                lg = lang(parse(s), 4)
                wl = {x for x in want if len(x) <= 4}
                if lg != wl:
                    w.violate("solve:" + what, "the %s %s of the automaton %r (finals %s, %s): missing %s extra %s"
                              % (what, s[:300], nfa, sorted(fin), "all" if univ else "any", show(wl - lg), show(lg - wl)))
                    return
                if what == "solution":
                    if len(s) > 400:
                        break
                    re = re.simplified()
        w.case(sig=("fsa", repr(sorted(nfa.items()))))


def permutations(w, rng):
    from guppy.etc.IterPermute import iterpermute
    n = rng.randrange(0, 5)
    args = [[(i, j) if rng.random() < 0.8 else (i, 0) for j in range(rng.choice((0, 1, 2, 2, 3, 4, 5)) if rng.random() < 0.9 else 7)]
            for i in range(n)]
    # label positions, so that equal items at different places count separately
    args = [[(i, j) for j in range(len(a))] for i, a in enumerate(args)]
    form = rng.choice((list, tuple, iter, lambda a: (x for x in a)))
    w.beat("iterpermute %r" % (args,))
    got = list(iterpermute(*[form(a) for a in args]))
    want = list(itertools.product(*args))
    w.event("permutations", len(want))
    if sorted(got) != sorted(want):
        w.violate("iterpermute", "iterpermute(%r): %d tuples, expected %d; missing %s, extra or repeated %s" % (
            args, len(got), len(want), sorted(set(want) - set(got))[:5],
            [x for x in set(got) if got.count(x) > 1 or x not in set(want)][:5]))
    w.case(sig=("perm", tuple(map(len, args))))


def x02(w):
    rng = w.rng
    rm, fm = REMon(w), FSAMon(w)
    i = 0
    while w.more(i, w.args["n"]):
        i += 1
        k = i % 8
        if k == 7:
            for _ in range(5):
                limited_time(w, lambda: permutations(w, rng))
        elif k in (2, 5):
            limited_time(w, lambda: fm.one(rng))
        else:
            alpha = rng.choice(("ab", "abc", "abcd"))
            m = rng.random()
            if m < 0.35:
                t = gen(rng, rng.randrange(1, 4), alpha)
            elif m < 0.65:
                t = genwords(rng, alpha)
            elif m < 0.85:
                t = genconcs(rng, alpha)
            else:
                t = gen(rng, 2, alpha, False)
            limited_time(w, lambda: rm.one(t, rng))
            if rng.random() < 0.1 and hasclosure(t):
                limited_time(w, lambda: rm.infinite(t, rng))
            w.case(sig=("re", repr(t)), sample=repr(t)[:200])



# ---------------------------------------------------------------- rewriting
class UF:
    def __init__(self):
        self.p = {}

    def find(self, x):
        self.p.setdefault(x, x)
        while self.p[x] != x:
            self.p[x] = self.p[self.p[x]]
            x = self.p[x]
        return x

    def join(self, a, b):
        self.p[self.find(a)] = self.find(b)


def monoid(rng):
    """A random finite monoid by generators: (names, mul on elements, generators, identity)."""
    k = rng.random()
    n = rng.choice((2, 2, 3, 3, 4))
    ng = rng.choice((1, 2, 2, 3))
    if k < 0.5:
        gens = [tuple(rng.randrange(n) for _ in range(n)) for _ in range(ng)]
    else:
        gens = []
        for _ in range(ng):
            p = list(range(n))
            rng.shuffle(p)
            gens.append(tuple(p))
    return gens, tuple(range(n))


def comp(f, g):
    """First f, then g."""
    return tuple(g[x] for x in f)


def word_value(word, gens, one):
    v = one
    for g in word:
        v = comp(v, gens[g])
    return v


class KBMon:
    def __init__(self, w):
        import guppy.etc.KnuthBendix as K
        self.K, self.w = K, w

    def naming(self, rng, n):
        delim = rng.choice(("", ".", ".", "::", "#"))
        if delim:
            names = rng.sample(["f", "g", "h", "ff", "fg", "x1", "x", "1x", "-i", "i"], n)
        else:
            names = rng.sample("abcdefxyzXYZ", n)
        return delim, names

    def wr(self, word, delim, names, rng=None):
        s = delim.join(names[g] for g in word)
        if delim and rng and rng.random() < 0.3:
            s = delim + s + delim if s else delim
        return s

    def rd(self, s, delim, names):
        if delim:
            return tuple(names.index(x) for x in s.split(delim) if x)
        return tuple(names.index(x) for x in s)

    def exhaust(self, R, p, delim, what):
        """All the results of rewriting p by the rules in any order."""
        w = self.w
        if delim:
            p = R.wrap_delim(p)
        seen = {p}
        todo = [p]
        ends = set()
        while todo:
            x = todo.pop()
            irr = True
            for u, v in R.reductions:
                i = x.find(u)
                while i >= 0:
                    irr = False
                    y = x[:i] + v + x[i + len(u):]
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
                        if len(seen) > 3000:
                            w.event("exhaust-capped")
                            return None
                    i = x.find(u, i + 1)
            if irr:
                ends.add(x)
        w.event("rewritings", len(seen))
        return ends

    def confluent(self, R, words, delim, names, what, rng):
        w = self.w
        for word in words:
            p = self.wr(word, delim, names)
            ends = self.exhaust(R, p, delim, what)
            if ends is None:
                continue
            nf = R.reduce(p)
            w.event("normal-forms")
            if delim:
                ends = {x.strip(delim) for x in ends}
            if ends != {nf}:
                w.violate("confluence", "%s: rewriting %r by the rules %s ends in %s, reduce gives %r"
                          % (what, p, R.reductions[:12], sorted(ends), nf))
                return False
            if R.reduce(nf) != nf:
                w.violate("normal-form", "%s: reduce(%r) = %r is not irreducible: %r" % (what, p, nf, R.reduce(nf)))
                return False
        # no rule can be applied for ever
        for u, v in R.reductions:
            if u == v or u in v:
                w.violate("termination", "%s: the rule %r -> %r does not terminate" % (what, u, v))
                return False
        return True

    def finite(self, rng):
        """A presentation of a known finite monoid: equality is decided exactly."""
        w = self.w
        gens, one = monoid(rng)
        n = len(gens)
        rep = {one: ()}
        order = [one]
        E = []
        for x in order:
            if len(order) > 40:
                return
            for g in range(n):
                y = comp(x, gens[g])
                if y not in rep:
                    rep[y] = rep[x] + (g,)
                    order.append(y)
                else:
                    E.append((rep[x] + (g,), rep[y]))
        delim, names = self.naming(rng, n)
        rng.shuffle(E)
        # redundant and reversed equations must not matter
        for _ in range(rng.randrange(3)):
            a = tuple(rng.randrange(n) for _ in range(rng.randrange(1, 5)))
            b = rep[word_value(a, gens, one)]
            if a != b:
                E.insert(rng.randrange(len(E) + 1), (a, b))
        Es = []
        for a, b in E:
            if rng.random() < 0.4:
                a, b = b, a
            Es.append((self.wr(a, delim, names, rng), self.wr(b, delim, names, rng)))
        if not Es:
            return
        w.beat("kb %r delim %r" % (Es, delim))
        what = "monoid of order %d on %s, equations %s" % (len(order), names, Es[:30])
        try:
            R = self.K.KnuthBendix(Es, delim=delim, max_iterations=40)
        except ValueError:
            w.event("not-completed")
            return
        w.event("completed-finite")
        words = [()]
        for k in range(1, 7):
            words += [tuple(rng.randrange(n) for _ in range(k)) for _ in range(12)]
        words = sorted(set(words))
        if not self.confluent(R, words[:40], delim, names, what, rng):
            return
        nfs = {}
        for word in words:
            p = self.wr(word, delim, names, rng)
            nf = R.reduce(p)
            val = word_value(word, gens, one)
            w.event("words")
            try:
                back = word_value(self.rd(nf, delim, names), gens, one)
            except ValueError:
                w.violate("reduce-garbage", "%s: reduce(%r) = %r is not a word" % (what, p, nf))
                return
            if back != val:
                w.violate("unsound", "%s: reduce(%r) = %r is a different element" % (what, p, nf))
                return
            if nfs.setdefault(val, nf) != nf:
                w.violate("incomplete", "%s: two normal forms %r and %r of one element" % (what, nfs[val], nf))
                return
        for _ in range(20):
            a, b = rng.choice(words), rng.choice(words)
            eq = bool(R(self.wr(a, delim, names, rng), self.wr(b, delim, names, rng)))
            if eq != (word_value(a, gens, one) == word_value(b, gens, one)):
                w.violate("equality", "%s: %r == %r is answered %s" % (what, a, b, eq))
                return
            w.event("equalities")
        w.case(sig=("monoid", tuple(gens)))

    def random(self, rng):
        """Any presentation: what completion returns must be confluent, complete and sound."""
        w = self.w
        n = rng.choice((1, 2, 2, 3))
        delim, names = self.naming(rng, n)
        E = []
        for _ in range(rng.choice((1, 1, 2, 2, 3, 4))):
            a = tuple(rng.randrange(n) for _ in range(rng.randrange(1, 6)))
            b = tuple(rng.randrange(n) for _ in range(rng.randrange(0, 4)))
            if a != b:
                E.append((a, b))
        if not E:
            return
        Es = [(self.wr(a, delim, names, rng), self.wr(b, delim, names, rng)) for a, b in E]
        w.beat("kb %r delim %r" % (Es, delim))
        what = "equations %s delim %r" % (Es, delim)
        try:
            R = self.K.KnuthBendix(list(Es), delim=delim, max_iterations=8)
        except ValueError:
            w.event("not-completed")
            return
        w.event("completed-random")
        w.case(sig=("kb", tuple(E)), sample=repr(Es)[:200])
        words = [tuple(rng.randrange(n) for _ in range(rng.randrange(0, 7))) for _ in range(15)]
        # words around the rules are where overlaps happen
        rules = [(self.rd(u, delim, names), self.rd(v, delim, names)) for u, v in R.reductions]
        for u, v in rules[:10]:
            u2 = rng.choice(rules)[0]
            for k in range(1, min(len(u), len(u2))):
                if u[-k:] == u2[:k]:
                    words.append(u + u2[k:])
            words.append(u)
        if not self.confluent(R, words, delim, names, what, rng):
            return
        for a, b in E:
            for _ in range(3):
                x = tuple(rng.randrange(n) for _ in range(rng.randrange(3)))
                y = tuple(rng.randrange(n) for _ in range(rng.randrange(3)))
                p, q = self.wr(x + a + y, delim, names), self.wr(x + b + y, delim, names)
                w.event("equalities")
                if not R(p, q):
                    w.violate("incomplete", "%s: %r and %r are equal but reduce to %r and %r" % (what, p, q, R.reduce(p), R.reduce(q)))
                    return
        # soundness in finite models of the equations
        models = []
        for _ in range(150):
            m = rng.choice((2, 2, 3))
            gens = [tuple(rng.randrange(m) for _ in range(m)) for _ in range(n)]
            one = tuple(range(m))
            if all(word_value(a, gens, one) == word_value(b, gens, one) for a, b in E):
                models.append((gens, one))
        for m in range(2, 8):
            # additive models: each letter a number modulo m
            for _ in range(10):
                ks = [rng.randrange(m) for _ in range(n)]
                if all((sum(ks[g] for g in a) - sum(ks[g] for g in b)) % m == 0 for a, b in E):
                    models.append(([tuple((x + k) % m for x in range(m)) for k in ks], tuple(range(m))))
        w.event("models", len(models))
        for u, v in rules + [(x, self.rd(R.reduce(self.wr(x, delim, names)), delim, names)) for x in words]:
            for gens, one in models:
                if word_value(u, gens, one) != word_value(v, gens, one):
                    w.violate("unsound", "%s: %r is rewritten to %r, which the equations do not imply" % (what, u, v))
                    return
            w.event("sound-rules")


class KanMon:
    def __init__(self, w):
        import guppy
        self.w = w
        self.kan = guppy.Root().guppy.etc.KanExtension
        self.Cat = self.kan.Cat

    def colimit(self, rng):
        w, Cat = self.w, self.Cat
        nobj = rng.randrange(1, 4)
        objs = list(range(nobj)) if rng.random() < 0.5 else ["o%d" % i for i in range(nobj)]
        kind = rng.choice(("int", "str", "shared"))
        sets = {}
        for o in objs:
            n = rng.choice((1, 2, 3, 4, 5, 0)) if rng.random() < 0.8 else rng.randrange(8, 14)
            sets[o] = [i if kind == "shared" else ("%s_%d" % (o, i) if kind == "str" else i * 7) for i in range(n)]
        arrows, maps = {}, {}
        for i in range(rng.randrange(0, 5)):
            a, b = rng.choice(objs), rng.choice(objs)
            if sets[a] and not sets[b]:
                continue
            arrows["a%d" % i] = (a, b)
            maps["a%d" % i] = {x: rng.choice(sets[b]) for x in sets[a]}
        w.beat("colimit %r %r %r" % (sets, arrows, maps))
        A = Cat.Graph(objs, arrows)
        X = Cat.Functor(Cat.Function(sets, objs, list(sets.values())),
                        Cat.Function({a: Cat.Function(m, list(m), list(m.values())) for a, m in maps.items()}, list(arrows), None))
        obj, funs = self.kan.colimit(A, X)
        obj = list(obj)
        uf = UF()
        for o in objs:
            for x in sets[o]:
                uf.find((o, x))
        for a, (s, t) in arrows.items():
            for x in sets[s]:
                uf.join((s, x), (t, maps[a][x]))
        classes = {}
        for o in objs:
            for x in sets[o]:
                v = funs[o](x)
                classes.setdefault(uf.find((o, x)), set()).add(v)
                w.event("colimit-elements")
        what = "colimit of %r with %r %r" % (sets, arrows, maps)
        if any(len(v) != 1 for v in classes.values()):
            w.violate("colimit-commutes", "%s: one class is sent to %s" % (what, [v for v in classes.values() if len(v) > 1]))
            return
        vals = [next(iter(v)) for v in classes.values()]
        if len(set(vals)) != len(vals):
            w.violate("colimit-universal", "%s: different classes are identified" % what)
            return
        if len(obj) != len(set(obj)) or set(obj) != set(vals):
            w.violate("colimit-object", "%s: the object is %s, expected %s" % (what, obj, vals))
            return
        w.event("colimits")
        w.case(sig=("colimit", repr((sets, sorted(arrows.items()), maps))))

    def coequalizer(self, rng):
        w = self.w
        n0, n1 = rng.randrange(0, 6), rng.randrange(1, 9)
        S0, S1 = list(range(n0)), ["e%d" % i for i in range(n1)]
        f0 = {x: rng.choice(S1) for x in S0}
        f1 = {x: rng.choice(S1) for x in S0}
        w.beat("coequalizer %r %r %r" % (S1, f0, f1))
        q = self.kan.coequalizer(S0, S1, f0.__getitem__, f1.__getitem__)
        uf = UF()
        for x in S0:
            uf.join(f0[x], f1[x])
        for x in S1:
            for y in S1:
                if (q(x) == q(y)) != (uf.find(x) == uf.find(y)):
                    w.violate("coequalizer", "coequalizer of %r and %r: %r and %r are sent to %r and %r" % (f0, f1, x, y, q(x), q(y)))
                    return
        if set(q.tgt) != {q(x) for x in S1} or len(list(q.tgt)) != len({q(x) for x in S1}):
            w.violate("coequalizer-target", "coequalizer of %r and %r: target %s" % (f0, f1, list(q.tgt)))
            return
        w.event("coequalizers")
        w.case(sig=("coeq", repr((n1, f0, f1))))

    def cat(self, rng):
        """A random category: graph and composable relations."""
        nobj = rng.randrange(1, 4)
        objs = list("ABC"[:nobj])
        arrows = {}
        for i in range(rng.randrange(1, 5)):
            arrows["fghk"[i]] = (rng.choice(objs), rng.choice(objs))

        def path(src, n):
            p = []
            for _ in range(n):
                c = [a for a in arrows if arrows[a][0] == src]
                if not c:
                    break
                a = rng.choice(c)
                p.append(a)
                src = arrows[a][1]
            return tuple(p), src
        rels = []
        for _ in range(rng.randrange(0, 4)):
            s = rng.choice(objs)
            a, ta = path(s, rng.randrange(1, 4))
            b, tb = path(s, rng.randrange(1, 4))
            if a and b and ta == tb and a != b:
                rels.append((a, b))
        return objs, arrows, rels

    def arrows_map(self, rng):
        w, Cat = self.w, self.Cat
        objs, arrows, rels = self.cat(rng)
        if rng.random() < 0.5:
            rels = [("".join(a), "".join(b)) for a, b in rels]
        what = "category %r %r %r" % (objs, arrows, rels)
        w.beat("arrows_map " + what)
        C = Cat.oarcat(objs, arrows, rels)
        D = C.get_dual()
        DD = D.get_dual()
        for a in arrows:
            if D.graph.source(a) != arrows[a][1] or D.graph.target(a) != arrows[a][0]:
                w.violate("dual-arrow", "%s: arrow %s of the dual" % (what, a))
                return
        if [(tuple(a), tuple(b)) for a, b in rels] != [(tuple(a), tuple(b)) for a, b in DD.relations] or DD.graph.arrows != arrows:
            w.violate("dual-dual", "%s: the dual of the dual is %r %r" % (what, DD.graph.arrows, DD.relations))
            return
        w.event("duals")
        import guppy.etc.KnuthBendix as K
        trel = [(tuple(a), tuple(b)) for a, b in rels]
        try:
            R = K.KnuthBendix([(".".join(a), ".".join(b)) for a, b in trel], delim=".", max_iterations=8) if trel else None
        except ValueError:
            w.event("not-completed")
            return
        nf = (lambda p: tuple(x for x in R.reduce(".".join(p)).split(".") if x)) if R else (lambda p: p)
        N = rng.choice((2, 3, 4))
        frm = rng.random() < 0.5
        try:
            am = self.kan.arrows_map(C, from_objects=frm, coverage="length%d" % N)
            got = {o: am(o) for o in objs}
        except ValueError as e:
            if "did not terminate" not in str(e):
                raise
            w.event("not-completed")
            return
        for o in objs:
            paths = [()]
            allp = []
            for _ in range(N):
                new = []
                for p in paths:
                    for a, (s, t) in arrows.items():
                        if frm:
                            if s == (arrows[p[-1]][1] if p else o):
                                new.append(p + (a,))
                        elif t == (arrows[p[0]][0] if p else o):
                            new.append((a,) + p)
                paths = new
                allp += new
            valid = set(allp)
            have = got[o]
            if len(set(have)) != len(have) or not set(have) <= valid:
                w.violate("arrows-invalid", "%s: arrows of length up to %d %s %s are listed as %s; not paths: %s"
                          % (what, N, "from" if frm else "to", o, have[:30], sorted(set(have) - valid)[:5]))
                return
            cls = {}
            for p in have:
                cls.setdefault(nf(p), []).append(p)
            if any(len(v) > 1 for v in cls.values()):
                w.violate("arrows-equal", "%s: equal arrows are listed separately: %s" % (what, [v for v in cls.values() if len(v) > 1][:3]))
                return
            lack = [p for p in allp if nf(p) not in cls and nf(p)]
            w.event("arrows", len(have))
            if lack:
                w.violate("arrows-lack", "%s: arrows of length up to %d %s %s lack %s" % (what, N, "from" if frm else "to", o, lack[:5]))
                return
        w.event("arrow-maps")
        w.case(sig=("cat", what))

    def extension(self, rng):
        """A left Kan extension: functor laws, relations, naturality, and the elements."""
        w, Cat = self.w, self.Cat
        objs, arrows, rels = self.cat(rng)
        B = Cat.Graph(objs, arrows)
        nA = rng.randrange(1, 3)
        Aobj = list(range(nA))
        Fo = {o: rng.choice(objs) for o in Aobj}
        Xo = {o: list(range(rng.randrange(1, 4))) for o in Aobj}
        Aar, Fa, Xa = {}, {}, {}
        for i in range(rng.randrange(0, 3)):
            s, t = rng.choice(Aobj), rng.choice(Aobj)
            # a path in B from F(s) to F(t)
            cands = [()] if Fo[s] == Fo[t] else []
            paths = [((), Fo[s])]
            for _ in range(2):
                paths = [(p + (b,), arrows[b][1]) for p, e in paths for b in arrows if arrows[b][0] == e]
                cands += [p for p, e in paths if e == Fo[t]]
            if not cands:
                continue
            n = "u%d" % i
            Aar[n] = (s, t)
            Fa[n] = rng.choice(cands)
            Xa[n] = {x: rng.choice(Xo[t]) for x in Xo[s]}
        what = "B=%r %r %r A=%r F=%r %r X=%r %r" % (objs, arrows, rels, Aar, Fo, Fa, Xo, Xa)
        w.beat("lke " + what)
        A = Cat.Graph(Aobj, Aar)
        X = Cat.Functor(Cat.Function(Xo, Aobj, None), Cat.Function({a: Cat.Function(m, None, None) for a, m in Xa.items()}, None, None))
        F = Cat.Functor(Cat.Function(Fo, None, None), Cat.Function(Fa, None, None))
        try:
            k = self.kan.lke(A, B, rels, X, F)
        except ValueError as e:
            if "did not terminate" not in str(e):
                raise
            w.event("not-completed")
            return
        # the elements, by following arrows from the generators
        N = 4
        elems = {o: set() for o in objs}
        layer = set()
        for o in Aobj:
            for x in Xo[o]:
                e = k.reduce(((o, x),))
                layer.add((e, Fo[o]))
        known = set(layer)
        for e, o in layer:
            elems[o].add(e)
        finite = False
        for _ in range(N):
            new = set()
            for e, o in layer:
                for b, (s, t) in arrows.items():
                    if s == o:
                        y = (k.reduce(e + (b,)), t)
                        if y not in known:
                            new.add(y)
            known |= new
            layer = new
            if not new:
                finite = True
                break
            if len(known) > 200:
                break
        for e, o in known:
            elems[o].add(e)
        w.event("lke-elements", len(known))
        for a, b in rels:
            s = arrows[a[0]][0]
            for e in list(elems[s])[:8]:
                x = y = e
                for f in a:
                    x = k.reduce(x + (f,))
                for f in b:
                    y = k.reduce(y + (f,))
                if x != y:
                    w.violate("kan-relation", "%s: %r and %r act differently on %r: %r, %r" % (what, a, b, e, x, y))
                    return
                w.event("kan-relations")
        for a, (s, t) in Aar.items():
            for x in Xo[s]:
                l = k.nat[t](Xa[a][x])
                r = k.nat[s](x)
                for f in Fa[a]:
                    r = k.reduce(r + (f,))
                if l != r:
                    w.violate("kan-natural", "%s: naturality at %s, %r: %r, %r" % (what, a, x, l, r))
                    return
                w.event("kan-naturality")
        if finite:
            for o in objs:
                try:
                    got = [tuple(x) for x in k.K.fo[o]]
                except Exception as e:
                    if type(e).__name__ != "InfiniteError":
                        raise
                    w.violate("kan-infinite", "%s: K(%s) is finite %s but given as %s" % (what, o, sorted(map(repr, elems[o])), k.K.fo[o].re.shform()))
                    return
                if len(got) != len(set(got)) or set(got) != elems[o]:
                    w.violate("kan-elements", "%s: K(%s) is listed as %s, but has %s; rules %s" % (what, o, sorted(got, key=repr), sorted(elems[o], key=repr), k.Rconf))
                    return
                w.event("kan-sets")
            for b, (s, t) in arrows.items():
                act = k.K.fa[b]
                for e in elems[s]:
                    v = act(e)
                    if v not in elems[t] or v != k.reduce(e + (b,)):
                        w.violate("kan-action", "%s: K(%s) sends %r to %r" % (what, b, e, v))
                        return
                    w.event("kan-actions")
                for o in objs:
                    if o != s:
                        for e in list(elems[o])[:2]:
                            try:
                                act(e)
                            except TypeError:
                                w.event("kan-refused")
                            else:
                                w.violate("kan-domain", "%s: K(%s) accepts %r of K(%s)" % (what, b, e, o))
                                return
        w.case(sig=("lke", what))


def x03(w):
    rng = w.rng
    km, cm = KBMon(w), KanMon(w)
    todo = [km.finite, km.random, km.random, cm.colimit, cm.coequalizer, cm.arrows_map, cm.extension, cm.extension]
    i = 0
    while w.more(i, w.args["n"]):
        fn = todo[i % len(todo)]
        i += 1
        limited_time(w, lambda: fn(rng), 3 if w.tier == "thorough" else 1)


def main(w):
    {"X02": x02, "X03": x03}[w.args["mode"]](w)


if __name__ == "__main__":
    vw.main(main)
