"""Regular expressions as automata.

Patterns are parsed with the standard library's own regular-expression parser
(`re._parser`, the front end of `re.compile`) and turned into epsilon-NFAs over
a finite alphabet of character classes.  Used for group tables (C23), language
inclusion of captures (C24), exponential-ambiguity analysis (C25) and language
comparison of accessors (C27).  Nothing is ever matched against text.
"""
import re
import re._constants as sc
import re._parser as sp
import unicodedata   # noqa: F401  (documents where \d, \s, \w come from)
import warnings

EXTRA = ["\u0663", "\u00e9", "\u2003", "\u2192", "\u00c9", "\u4e2d"]
BASE = [chr(i) for i in range(128)] + EXTRA


class Unsupported(Exception):
    pass


def parse(text, flags=0):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return sp.parse(text, flags)


def compile_error(text, flags=0):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            re.compile(text, flags)
        return None
    except re.error as e:
        return str(e)
    except (ValueError, OverflowError, TypeError) as e:
        return str(e)


def groups(text, flags=0):
    """(number of groups, {name: number})"""
    t = parse(text, flags)
    return t.state.groups - 1, dict(t.state.groupdict)


# --------------------------------------------------------------------------
def _isword(c):
    return c.isalnum() or c == "_"


def _cat(cat, c, ascii_):
    d = c.isdigit() if False else (unicodedata.category(c) == "Nd")
    s = c.isspace()
    w = _isword(c)
    if ascii_:
        d = c in "0123456789"
        s = c in " \t\n\r\f\v"
        w = ord(c) < 128 and w
    return {sc.CATEGORY_DIGIT: d, sc.CATEGORY_NOT_DIGIT: not d, sc.CATEGORY_SPACE: s, sc.CATEGORY_NOT_SPACE: not s,
            sc.CATEGORY_WORD: w, sc.CATEGORY_NOT_WORD: not w}[cat]


class NFA:
    """states 0..n-1; eps[q] = [(cond, r)], chr[q] = [(frozenset of symbols, r)]; start, accept"""

    def __init__(self, alphabet):
        self.alpha = alphabet
        self.eps = []
        self.chr = []
        self.inexact = set()

    def new(self):
        self.eps.append([])
        self.chr.append([])
        return len(self.eps) - 1


class Builder:
    def __init__(self, alphabet, flags=0, cap=40):
        self.n = NFA(alphabet)
        self.alpha = alphabet
        self.flags = flags
        self.cap = cap
        self._memo = {}

    # ---- character sets
    def charset(self, op, av):
        ic = bool(self.flags & re.IGNORECASE)
        asc = bool(self.flags & re.ASCII)
        key = (str(op), repr(av), ic, asc, bool(self.flags & re.DOTALL))
        if key in self._memo:
            return self._memo[key]

        def one(op, av, c):
            cs = {c, c.lower(), c.upper()} if ic else {c}
            cs = {x for x in cs if len(x) == 1}
            if op is sc.LITERAL:
                return any(ord(x) == av for x in cs)
            if op is sc.RANGE:
                return any(av[0] <= ord(x) <= av[1] for x in cs)
            if op is sc.CATEGORY:
                return _cat(av, c, asc)
            raise Unsupported(str(op))
        if op is sc.LITERAL:
            r = frozenset(c for c in self.alpha if one(sc.LITERAL, av, c))
        elif op is sc.NOT_LITERAL:
            r = frozenset(c for c in self.alpha if not one(sc.LITERAL, av, c))
        elif op is sc.ANY:
            r = frozenset(c for c in self.alpha if c != "\n" or self.flags & re.DOTALL)
        elif op is sc.IN:
            neg = av and av[0][0] is sc.NEGATE
            items = av[1:] if neg else av
            r = frozenset(c for c in self.alpha if any(one(o, a, c) for o, a in items) != bool(neg))
        elif op is sc.CATEGORY:
            r = frozenset(c for c in self.alpha if one(op, av, c))
        else:
            raise Unsupported(str(op))
        self._memo[key] = r
        return r

    # ---- fragments
    def seq(self, items, q):
        for op, av in items:
            q = self.item(op, av, q)
        return q

    def item(self, op, av, q):
        n = self.n
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.CATEGORY):
            r = n.new()
            n.chr[q].append((self.charset(op, av), r))
            return r
        if op is sc.SUBPATTERN:
            gid, add, drop, p = av
            old = self.flags
            self.flags = (self.flags | add) & ~drop
            r = self.seq(p, q)
            self.flags = old
            return r
        if op is sc.BRANCH:
            out = n.new()
            for alt in av[1]:
                a = n.new()
                n.eps[q].append((None, a))
                e = self.seq(alt, a)
                n.eps[e].append((None, out))
            return out
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
            lo, hi, p = av
            if op is getattr(sc, "POSSESSIVE_REPEAT", None):
                n.inexact.add("possessive repeat")
            if lo > self.cap:
                n.inexact.add("long repeat")
                lo = self.cap
                hi = sc.MAXREPEAT if hi is sc.MAXREPEAT else max(hi, lo)
            for _ in range(lo):
                q = self.seq(p, q)
            if hi is sc.MAXREPEAT or hi - lo > self.cap:
                if hi is not sc.MAXREPEAT:
                    n.inexact.add("long repeat")
                # entering a repetition and going round it are different states: a
                # new activation inside an outer repetition is not a cycle
                enter, again, body, out = n.new(), n.new(), n.new(), n.new()
                n.eps[q].append((None, enter))
                for x in (enter, again):
                    n.eps[x].append((None, body))
                    n.eps[x].append((None, out))
                e = self.seq(p, body)
                n.eps[e].append((None, again))
                return out
            out = n.new()
            for _ in range(hi - lo):
                n.eps[q].append((None, out))
                b = n.new()
                n.eps[q].append((None, b))
                q = self.seq(p, b)
            n.eps[q].append((None, out))
            return out
        if op is sc.AT:
            r = n.new()
            cond = {sc.AT_BEGINNING: "b", sc.AT_BEGINNING_STRING: "b", sc.AT_END: "e", sc.AT_END_STRING: "e",
                    sc.AT_BOUNDARY: "w", sc.AT_NON_BOUNDARY: "W"}.get(av)
            if cond is None:
                raise Unsupported(str(av))
            if self.flags & re.MULTILINE and cond in "be":
                n.inexact.add("multi-line anchor")
            n.eps[q].append((cond, r))
            return r
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            n.inexact.add("look-around")
            return q
        if op is sc.GROUPREF:
            n.inexact.add("back reference")
            r = n.new()
            n.chr[r].append((frozenset(self.alpha), r))
            n.eps[q].append((None, r))
            o = n.new()
            n.eps[r].append((None, o))
            return o
        if op is getattr(sc, "ATOMIC_GROUP", None):
            n.inexact.add("atomic group")
            return self.seq(av, q)
        if op is sc.GROUPREF_EXISTS:
            n.inexact.add("conditional")
            out = n.new()
            for alt in (av[1], av[2] or []):
                a = n.new()
                n.eps[q].append((None, a))
                n.eps[self.seq(alt, a)].append((None, out))
            return out
        raise Unsupported(str(op))


def alphabet_for(*trees):
    extra = set()

    def walk(items):
        for op, av in items:
            if op in (sc.LITERAL, sc.NOT_LITERAL) and av > 127:
                extra.add(chr(av))
            elif op is sc.IN:
                walk(av)
            elif op is sc.RANGE:
                for x in av:
                    if x > 127:
                        extra.add(chr(min(x, 0x10ffff)))
            elif op is sc.SUBPATTERN:
                walk(av[3])
            elif op is sc.BRANCH:
                for a in av[1]:
                    walk(a)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                walk(av[2])
            elif op in (sc.ASSERT, sc.ASSERT_NOT):
                walk(av[1])
    for t in trees:
        walk(t)
    return BASE + sorted(extra - set(BASE))


def find_group(tree, gid):
    """the subpattern items of group gid, and the list of enclosing constructs"""
    hits = []

    def walk(items, ctx):
        for op, av in items:
            if op is sc.SUBPATTERN:
                if av[0] == gid:
                    hits.append((av, ctx))
                walk(av[3], ctx)
            elif op is sc.BRANCH:
                for i, a in enumerate(av[1]):
                    walk(a, ctx + [("branch", len(av[1]))])
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or op is getattr(sc, "POSSESSIVE_REPEAT", None):
                walk(av[2], ctx + [("repeat", av[0])])
            elif op in (sc.ASSERT, sc.ASSERT_NOT):
                walk(av[1], ctx + [("assert", op is sc.ASSERT)])
            elif op is getattr(sc, "ATOMIC_GROUP", None):
                walk(av, ctx)
            elif op is sc.GROUPREF_EXISTS:
                walk(av[1], ctx + [("branch", 2)])
                walk(av[2] or [], ctx + [("branch", 2)])
    walk(tree, [])
    return hits


def always_participates(tree, gid):
    if gid == 0:
        return True
    hits = find_group(tree, gid)
    return bool(hits) and all(not any(k == "branch" or (k == "repeat" and v == 0) or (k == "assert" and not v) for k, v in ctx) for _, ctx in hits)


def group_nfa(text, flags, gid, alphabet=None):
    """NFA of everything group gid can capture (an over-approximation: context and look-arounds are ignored)"""
    t = parse(text, flags)
    fl = t.state.flags
    if alphabet is None:
        alphabet = alphabet_for(t)
    b = Builder(alphabet, fl)
    s = b.n.new()
    if gid == 0:
        e = b.seq(t, s)
    else:
        hits = find_group(t, gid)
        if not hits:
            raise Unsupported("no such group")
        (g, add, drop, p), _ = hits[0]
        b.flags = (b.flags | add) & ~drop
        e = b.seq(p, s)
    b.n.start, b.n.accept = s, e
    return b.n


def whole_nfa(text, flags=0, alphabet=None):
    return group_nfa(text, flags, 0, alphabet)


# --------------------------------------------------------------------------
def closure(n, states, at_begin=True, at_end=True, wb=None):
    """epsilon closure; None conditions always hold; wb None = unknown (over-approximate)"""
    seen = set(states)
    todo = list(states)
    while todo:
        q = todo.pop()
        for cond, r in n.eps[q]:
            if r in seen:
                continue
            if cond == "b" and not at_begin or cond == "e" and not at_end:
                continue
            if cond == "w" and wb is False or cond == "W" and wb is True:
                continue
            seen.add(r)
            todo.append(r)
    return frozenset(seen)


def included(n, accept_nfa):
    """language of n included in that of accept_nfa?  returns None or a shortest witness; anchors in n are ignored"""
    start = (closure(n, [n.start]), closure(accept_nfa, [accept_nfa.start]))
    todo = [(start, "")]
    seen = {start}
    while todo:
        nxt = []
        for (a, b), w in todo:
            if n.accept in a and accept_nfa.accept not in b:
                return w
            sym = {}
            for q in a:
                for cs, r in n.chr[q]:
                    for c in cs:
                        sym.setdefault(c, set()).add(r)
            moves = {}
            for c, rs in sym.items():
                br = set()
                for q in b:
                    for cs, r in accept_nfa.chr[q]:
                        if c in cs:
                            br.add(r)
                moves.setdefault((frozenset(rs), frozenset(br)), c)
            for (rs, br), c in sorted(moves.items(), key=lambda kv: kv[1]):
                st = (closure(n, rs), closure(accept_nfa, br))
                if st not in seen:
                    seen.add(st)
                    nxt.append((st, w + c))
            if len(seen) > 20000:
                raise Unsupported("inclusion too large")
        todo = nxt
    return None


class SearchDFA:
    """`re.search` as a lazily determinised automaton over lines without line ends"""

    def __init__(self, n):
        self.n = n
        self.start = (frozenset([n.start]), "start")

    def wbnd(self, prev, nxt):
        a = prev == "word"
        b = nxt is not None and _isword(nxt)
        return a != b

    def accepting(self, st):
        raw, prev = st
        if raw == "yes":
            return True
        c = closure(self.n, raw | {self.n.start}, at_begin=prev == "start", at_end=True, wb=self.wbnd(prev, None))
        return self.n.accept in c

    def step(self, st, ch):
        raw, prev = st
        if raw == "yes":
            return st
        c = closure(self.n, raw | {self.n.start}, at_begin=prev == "start", at_end=False, wb=self.wbnd(prev, ch))
        if self.n.accept in c:
            return ("yes", None)
        out = set()
        for q in c:
            for cs, r in self.n.chr[q]:
                if ch in cs:
                    out.add(r)
        return (frozenset(out), "word" if _isword(ch) else "other")


def symbols(*nfas):
    """one representative per class of characters no transition of any automaton tells apart"""
    sets = {cs for n in nfas for row in n.chr for cs, _ in row}
    reps = {}
    for c in nfas[0].alpha:
        if c in "\n\r":
            continue
        reps.setdefault((tuple(c in s for s in sets), _isword(c)), c)
    return list(reps.values())


def differ(t1, f1, t2, f2, limit=30000):
    """None when the two patterns find a match in exactly the same lines, else a shortest line on which they differ"""
    p1, p2 = parse(t1, f1), parse(t2, f2)
    al = alphabet_for(p1, p2)
    a, b = whole_nfa(t1, f1, al), whole_nfa(t2, f2, al)
    if a.inexact or b.inexact:
        raise Unsupported(", ".join(a.inexact | b.inexact))
    da, db = SearchDFA(a), SearchDFA(b)
    syms = symbols(a, b)
    st = (da.start, db.start)
    seen = {st}
    todo = [(st, "")]
    while todo:
        nxt = []
        for (x, y), w in todo:
            if da.accepting(x) != db.accepting(y):
                return w
            for c in syms:
                s2 = (da.step(x, c), db.step(y, c))
                if s2 not in seen:
                    seen.add(s2)
                    nxt.append((s2, w + c))
            if len(seen) > limit:
                raise Unsupported("too large")
        todo = nxt
    return None


# --------------------------------------------------------------------------
def eda(text, flags=0):
    """exponential ambiguity: None, or (prefix, pump, reason) where matching can take exponential time.
    Alternatives are tried in order: what a later one would match does not save an earlier one from being exhausted
    first, so the pattern cut down to its earlier alternatives is judged as well."""
    t = parse(text, flags)
    fl = t.state.flags
    al = [c for c in alphabet_for(t) if c not in "\n\r"]
    hit = _eda(_nfa_of(list(t), fl, al))
    if hit is not None:
        return hit
    for before, cut in _earlier(list(t)):
        try:
            hit = _eda(_nfa_of(before + cut, fl, al))
        except Unsupported:
            continue
        if hit is None:
            continue
        # the engine gets to the choice in one way only on this text: what is exhausted is exhausted for good
        b = _nfa_of(before, fl, al)
        got = [i for i in _arrivals(b, hit[0] + hit[1] * 6)]
        if len(got) == 1 and got[0] <= len(hit[0]):
            return hit[:2] + (hit[2] + ", before a later alternative is tried",)
    return None


def _nfa_of(items, flags, alphabet):
    b = Builder(alphabet, flags)
    s = b.n.new()
    e = b.seq(items, s)
    b.n.start, b.n.accept = s, e
    return b.n


def _earlier(items):
    """(what stands before a choice, the rest with the choice cut down to what is tried first)"""
    for i, (op, av) in enumerate(items):
        before, after = items[:i], items[i + 1:]
        if op is sc.BRANCH:
            for k in range(1, len(av[1])):
                yield before, [(op, (av[0], av[1][:k]))] + after
        elif op is sc.MAX_REPEAT and av[0] == 0 and av[1] != 0:
            yield before, [(op, (1,) + tuple(av[1:]))] + after
        elif op is sc.SUBPATTERN and not av[1] and not av[2]:
            for b2, cut in _earlier(list(av[3])):
                yield before + b2, cut + after


def _arrivals(n, word):
    """lengths of the beginnings of word that n accepts"""
    cur, out = frozenset([n.start]), []
    for i in range(len(word) + 1):
        c = closure(n, cur, at_begin=i == 0, at_end=i == len(word))
        if n.accept in c:
            out.append(i)
        if i < len(word):
            cur = frozenset(r for p in c for cs, r in n.chr[p] if word[i] in cs)
            if not cur:
                break
    return out


def _eda(n):
    N = len(n.eps)
    # epsilon-free transitions with multiplicity, between "letter states" (targets of letters) and start
    letters = [n.start] + sorted({r for row in n.chr for _, r in row})

    def eps_paths(q):
        """{state: number of simple epsilon paths (capped at 2)}"""
        count = {}
        steps = 0
        stack = [(q, iter(n.eps[q]))]
        onpath = {q}
        count[q] = 1
        while stack:
            cur, it = stack[-1]
            nx = next(it, None)
            if nx is None:
                stack.pop()
                onpath.discard(cur)
                continue
            cond, r = nx
            steps += 1
            if r in onpath or cond == "e" or (cond == "b" and q != n.start):
                continue
            if steps > 40000:
                break
            c = count.get(r, 0)
            if c >= 2 and steps > 4000:
                continue
            count[r] = min(2, c + 1)
            onpath.add(r)
            stack.append((r, iter(n.eps[r])))
        return count
    trans = {}
    ep = {}
    for q in letters:
        ep[q] = eps_paths(q)
        d = {}
        for m, k in ep[q].items():
            for cs, r in n.chr[m]:
                d.setdefault((cs, r), 0)
                d[(cs, r)] = min(2, d[(cs, r)] + k)
        trans[q] = d
    # SCCs over letters
    succ = {q: {r for (_, r) in trans[q]} for q in letters}
    comp = _scc(letters, succ)
    members = {}
    for q, c in comp.items():
        members.setdefault(c, []).append(q)
    for c, qs in sorted(members.items()):
        qset = set(qs)
        inner = {q: [(cs, r, k) for (cs, r), k in trans[q].items() if r in qset] for q in qs}
        if not any(inner.values()):
            continue
        # doubled transition inside a cycle
        for q in qs:
            for cs, r, k in inner[q]:
                if k >= 2:
                    back = _path(inner, r, q)
                    if back is not None:
                        pump = min(cs) + back
                        hit = _fails(n, trans, q, pump)
                        if hit is not None:
                            return hit + ("one repetition can be skipped or taken in two ways",)
        # two different runs over the same word from q to q
        if len(qs) > 220:
            raise Unsupported("component too large")
        for q in qs:
            w = _double(inner, q)
            if w is not None:
                hit = _fails(n, trans, q, w)
                if hit is not None:
                    return hit + ("the same text can be split between repetitions in several ways",)
    return None


def _scc(nodes, succ):
    index, low, comp, stack, on = {}, {}, {}, [], set()
    cnt = [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ[root]))]
        index[root] = low[root] = cnt[0]
        cnt[0] += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            w = next(it, None)
            if w is None:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    while True:
                        x = stack.pop()
                        on.discard(x)
                        comp[x] = v
                        if x == v:
                            break
            elif w not in index:
                index[w] = low[w] = cnt[0]
                cnt[0] += 1
                stack.append(w)
                on.add(w)
                work.append((w, iter(succ[w])))
            elif w in on:
                low[v] = min(low[v], index[w])
    return comp


def _path(inner, a, b):
    """a word leading from a to b inside the component"""
    seen = {a: ""}
    todo = [a]
    while todo:
        nxt = []
        for q in todo:
            if q == b:
                return seen[q]
            for cs, r, _ in inner[q]:
                if r not in seen and cs:
                    seen[r] = seen[q] + min(cs)
                    nxt.append(r)
        todo = nxt
    return None


def _double(inner, q):
    """a word with two different runs from q back to q"""
    start = (q, q, False)
    seen = {start: ""}
    todo = [start]
    while todo:
        nxt = []
        for st in todo:
            a, b, split = st
            w = seen[st]
            for cs1, r1, _ in inner[a]:
                for cs2, r2, _ in inner[b]:
                    both = cs1 & cs2
                    if not both:
                        continue
                    # two different transitions, also when they lead to one state
                    s2 = (r1, r2, split or r1 != r2)
                    if s2 == (q, q, True):
                        return w + min(both)
                    if s2 not in seen:
                        seen[s2] = w + min(both)
                        nxt.append(s2)
        todo = nxt
        if len(seen) > 60000:
            raise Unsupported("component too large")
    return None


def _fails(n, trans, q, pump):
    """(prefix, pump) when, after reading them from one fixed start, some continuation makes that attempt fail"""
    # shortest prefix from the start to q
    seen = {n.start: ""}
    todo = [n.start]
    while todo and q not in seen:
        nxt = []
        for p in todo:
            for (cs, r) in trans.get(p, ()):
                if r not in seen and cs:
                    seen[r] = seen[p] + min(cs)
                    nxt.append(r)
        todo = nxt
    if q not in seen:
        return None
    prefix = seen[q]
    cur = frozenset([n.start])
    first = True

    def step(cur, ch, first):
        c = closure(n, cur, at_begin=first, at_end=False)
        if n.accept in c:
            return "yes"
        return frozenset(r for p in c for cs, r in n.chr[p] if ch in cs)
    for ch in prefix + pump * (len(n.eps) // max(1, len(pump)) % 7 + 3):
        cur = step(cur, ch, first)
        first = False
        if cur == "yes" or not cur:
            return None
    # some continuation without a match?
    syms = symbols(n)
    seenS = {cur}
    todo = [cur]
    while todo:
        nxt = []
        for s in todo:
            if n.accept not in closure(n, s, at_begin=False, at_end=True):
                return prefix, pump
            for ch in syms:
                s2 = step(s, ch, False)
                if s2 != "yes" and s2 not in seenS:
                    seenS.add(s2)
                    nxt.append(s2)
            if len(seenS) > 4000:
                return prefix, pump
        todo = nxt
    return None
