"""Regular languages over Unicode scalar values, as canonical minimal DFAs.

A language is an instance of Lang: an immutable, complete, minimal DFA whose states are numbered in
breadth-first order, so that two Langs denote the same set of strings iff they are equal.

Scalar values are stored "compressed" (the surrogate gap removed) so that the alphabet is one
contiguous interval.
"""
from functools import lru_cache

MAXC = 0x10FFFF - 0x800


def enc(cp):
    assert not 0xD800 <= cp <= 0xDFFF
    return cp - 0x800 if cp >= 0xE000 else cp


def dec(c):
    return c + 0x800 if c >= 0xD800 else c


class CharSet(tuple):
    """Sorted tuple of disjoint, non-adjacent (lo, hi) intervals, compressed code points."""

    @staticmethod
    def of(pairs):
        """From inclusive code-point pairs (uncompressed; a pair may span the surrogate gap)."""
        out = []
        for lo, hi in pairs:
            if lo > hi:
                continue
            if 0xD800 <= lo <= 0xDFFF:
                lo = 0xE000
            if 0xD800 <= hi <= 0xDFFF:
                hi = 0xD7FF
            if lo <= hi:
                out.append((enc(lo), enc(hi)))
        return CharSet.norm(out)

    @staticmethod
    def norm(pairs):
        out = []
        for lo, hi in sorted(pairs):
            if out and lo <= out[-1][1] + 1:
                if hi > out[-1][1]:
                    out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
        return CharSet(out)

    @staticmethod
    def chars(s):
        return CharSet.norm([(enc(ord(c)), enc(ord(c))) for c in s])

    def inter(self, o):
        out = []
        for a, b in self:
            for c, d in o:
                lo, hi = max(a, c), min(b, d)
                if lo <= hi:
                    out.append((lo, hi))
        return CharSet.norm(out)

    def union(self, o):
        return CharSet.norm(list(self) + list(o))

    def compl(self):
        out, p = [], 0
        for lo, hi in self:
            if p < lo:
                out.append((p, lo - 1))
            p = hi + 1
        if p <= MAXC:
            out.append((p, MAXC))
        return CharSet(out)

    def minus(self, o):
        return self.inter(o.compl())

    def single(self):
        """The one character of the set, or None."""
        if len(self) == 1 and self[0][0] == self[0][1]:
            return chr(dec(self[0][0]))
        return None

    def sample(self):
        for lo, hi in self:
            for want in (enc(ord("a")), enc(ord("0"))):
                if lo <= want <= hi:
                    return chr(dec(want))
        return chr(dec(self[0][0]))

    def show(self):
        return "[" + ",".join(
            ("U+%04X" % dec(a)) if a == b else ("U+%04X-U+%04X" % (dec(a), dec(b))) for a, b in self) + "]"


ANYC = CharSet([(0, MAXC)])


class Lang:
    __slots__ = ("trans", "acc", "_h")

    def __init__(self, trans, acc):
        self.trans, self.acc = trans, acc
        self._h = hash((trans, acc))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lang) and self._h == o._h and self.trans == o.trans and self.acc == o.acc)

    def __repr__(self):
        return "Lang(%s)" % describe(self)


def _canon(trans, acc, start):
    """trans: list of sorted complete [(lo,hi,t)], acc: list of bool. Minimise + renumber."""
    # reachable
    order, seen = [start], {start}
    for q in order:
        for _, _, t in trans[q]:
            if t not in seen:
                seen.add(t)
                order.append(t)
    idx = {q: i for i, q in enumerate(order)}
    tr = [[(a, b, idx[t]) for a, b, t in trans[q]] for q in order]
    ac = [bool(acc[q]) for q in order]
    n = len(tr)
    # partition refinement (Moore)
    cls = [1 if x else 0 for x in ac]
    while True:
        sig = {}
        new = []
        for q in range(n):
            s = []
            for a, b, t in tr[q]:
                c = cls[t]
                if s and s[-1][1] == c:
                    s[-1] = (b, c)
                else:
                    s.append((b, c))
            k = (cls[q], tuple(s))
            new.append(sig.setdefault(k, len(sig)))
        if len(sig) == len(set(cls)):
            break
        cls = new
    # quotient, BFS renumber
    rep = {}
    for q in range(n):
        rep.setdefault(cls[q], q)
    order, num = [cls[0]], {cls[0]: 0}
    out = []
    for c in order:
        row = []
        for a, b, t in tr[rep[c]]:
            d = cls[t]
            if d not in num:
                num[d] = len(order)
                order.append(d)
            if row and row[-1][2] == num[d]:
                row[-1] = (row[-1][0], b, num[d])
            else:
                row.append((a, b, num[d]))
        out.append(tuple(row))
    return Lang(tuple(out), tuple(ac[rep[c]] for c in order))


def _subsets(nstart, nedges, neps):
    """Subset construction -> ([set of NFA states], [complete row])."""
    one = {}

    def close1(q0):
        st, seen = [q0], {q0}
        while st:
            for t in neps[st.pop()]:
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        return frozenset(seen)

    def close(s):
        r = set()
        for q in s:
            c = one.get(q)
            if c is None:
                c = one[q] = close1(q)
            r |= c
        return frozenset(r)
    s0 = close((nstart,))
    ids, order, trans = {s0: 0}, [s0], []
    for s in order:
        pts = {0, MAXC + 1}
        es = set()
        for q in s:
            es.update(nedges[q])
        for a, b, t in es:
            pts.add(a)
            pts.add(b + 1)
        pts = sorted(pts)
        row = []
        for i in range(len(pts) - 1):
            lo, hi = pts[i], pts[i + 1] - 1
            tg = close({t for a, b, t in es if a <= lo and hi <= b})
            if tg not in ids:
                ids[tg] = len(order)
                order.append(tg)
            if row and row[-1][2] == ids[tg]:
                row[-1] = (row[-1][0], hi, ids[tg])
            else:
                row.append((lo, hi, ids[tg]))
        trans.append(row)
    return order, trans


def _det(nstart, nedges, neps, nacc):
    """NFA -> canonical DFA. nedges[q] = [(lo,hi,t)], neps[q] = [t]."""
    order, trans = _subsets(nstart, nedges, neps)
    return _canon(trans, [any(q in nacc for q in s) for s in order], 0)


EMPTY = _canon([[(0, MAXC, 0)]], [False], 0)
ANY = _canon([[(0, MAXC, 0)]], [True], 0)


NONEMPTY = _canon([[(0, MAXC, 1)], [(0, MAXC, 1)]], [False, True], 0)


@lru_cache(None)
def lit(s):
    n = len(s)
    edges = [[(enc(ord(c)), enc(ord(c)), i + 1)] for i, c in enumerate(s)] + [[]]
    return _det(0, edges, [[] for _ in range(n + 1)], {n})


EPS = lit("")


@lru_cache(None)
def cset(cs):
    return _det(0, [[(a, b, 1) for a, b in cs], []], [[], []], {1})


ANYCHAR = cset(ANYC)


@lru_cache(None)
def _prod(a, b, op):
    ids, order, trans = {(0, 0): 0}, [(0, 0)], []
    for p, q in order:
        row = []
        i = j = 0
        ra, rb = a.trans[p], b.trans[q]
        lo = 0
        while i < len(ra) and j < len(rb):
            hi = min(ra[i][1], rb[j][1])
            k = (ra[i][2], rb[j][2])
            if k not in ids:
                ids[k] = len(order)
                order.append(k)
            row.append((lo, hi, ids[k]))
            lo = hi + 1
            if ra[i][1] == hi:
                i += 1
            if rb[j][1] == hi:
                j += 1
        trans.append(row)
    f = {"&": lambda x, y: x and y, "|": lambda x, y: x or y, "-": lambda x, y: x and not y}[op]
    return _canon(trans, [f(a.acc[p], b.acc[q]) for p, q in order], 0)


def inter(a, b):
    if a is ANY or a == b:
        return b
    if b is ANY:
        return a
    return _prod(a, b, "&")


def union(a, b):
    if a == EMPTY or a == b:
        return b
    if b == EMPTY:
        return a
    return _prod(a, b, "|")


def minus(a, b):
    return _prod(a, b, "-")


def compl(a):
    return _prod(ANY, a, "-")


def is_empty(a):
    return a == EMPTY


def subset(a, b):
    return minus(a, b) == EMPTY


@lru_cache(None)
def concat(a, b):
    if a == EPS:
        return b
    if b == EPS:
        return a
    n = len(a.trans)
    edges = [list(r) for r in a.trans] + [[(x, y, t + n) for x, y, t in r] for r in b.trans]
    eps = [[n] if a.acc[i] else [] for i in range(n)] + [[] for _ in b.trans]
    return _det(0, edges, eps, {n + i for i, x in enumerate(b.acc) if x})


def concat_all(ls):
    r = EPS
    for x in ls:
        r = concat(r, x)
    return r


@lru_cache(None)
def star(a):
    n = len(a.trans)
    edges = [[]] + [[(x, y, t + 1) for x, y, t in r] for r in a.trans]
    eps = [[1]] + [[0] if a.acc[i] else [] for i in range(n)]
    return _det(0, edges, eps, {0})


def plus(a):
    return concat(a, star(a))


@lru_cache(None)
def from_state(a, q):
    """Residual language of state q."""
    return _canon([list(r) for r in a.trans], list(a.acc), q)


@lru_cache(None)
def uniform_states(a):
    """{state: bool} of the states whose residual language is empty or everything."""
    out = {}
    for q in range(len(a.trans)):
        r = from_state(a, q)
        if r == EMPTY or r == ANY:
            out[q] = r == ANY
    return out


@lru_cache(None)
def path_lang(a, q, targets):
    """Strings leading from state q to one of the target states."""
    return _canon([list(r) for r in a.trans], [i in targets for i in range(len(a.trans))], q)


@lru_cache(None)
def upto_state(a, q):
    """Strings leading from the start to state q."""
    return _canon([list(r) for r in a.trans], [i == q for i in range(len(a.trans))], 0)


@lru_cache(None)
def live_states(a):
    """States from which some string is accepted."""
    rev = [set() for _ in a.trans]
    for i, r in enumerate(a.trans):
        for _, _, t in r:
            rev[t].add(i)
    st = [i for i, x in enumerate(a.acc) if x]
    seen = set(st)
    while st:
        for p in rev[st.pop()]:
            if p not in seen:
                seen.add(p)
                st.append(p)
    return frozenset(seen)


@lru_cache(None)
def first_splits(a):
    """Non-empty strings of a as disjoint products: [(CharSet, residual Lang)]."""
    live = live_states(a)
    by = {}
    for lo, hi, t in a.trans[0]:
        if t in live:
            by.setdefault(t, []).append((lo, hi))
    return [(CharSet.norm(v), from_state(a, t)) for t, v in by.items()]


@lru_cache(None)
def last_splits(a):
    """Non-empty strings of a as disjoint products: [(prefix Lang, CharSet)]."""
    by = {}
    for q in range(len(a.trans)):
        cs = CharSet.norm([(lo, hi) for lo, hi, t in a.trans[q] if a.acc[t]])
        if cs:
            by.setdefault(cs, []).append(q)
    out = []
    for cs, qs in by.items():
        l = _canon([list(r) for r in a.trans], [i in qs for i in range(len(a.trans))], 0)
        if l != EMPTY:
            out.append((l, cs))
    return out


@lru_cache(None)
def find_splits(a, cs):
    """Strings of a containing a char of cs, split at the FIRST such char: [(A, CharSet, B)]."""
    n = len(a.trans)
    no = cs.compl()
    dead = n
    tr = []
    for r in a.trans:
        row = []
        for lo, hi, t in r:
            for x, y in CharSet([(lo, hi)]).inter(no):
                row.append((x, y, t))
            for x, y in CharSet([(lo, hi)]).inter(cs):
                row.append((x, y, dead))
        tr.append(sorted(row))
    tr.append([(0, MAXC, dead)])
    live = live_states(a)
    groups = {}
    for q in range(n):
        for lo, hi, t in a.trans[q]:
            if t not in live:
                continue
            for iv in CharSet([(lo, hi)]).inter(cs):
                groups.setdefault((q, t), []).append(iv)
    # merge prefixes q with the same (class,target)
    by = {}
    for (q, t), ivs in groups.items():
        by.setdefault((CharSet.norm(ivs), t), []).append(q)
    out = []
    for (c, t), qs in by.items():
        A = _canon(tr, [i in qs for i in range(n)] + [False], 0)
        if A != EMPTY:
            out.append((A, c, from_state(a, t)))
    return out


@lru_cache(None)
def rfind_splits(a, cs):
    """Split at the LAST char of cs: [(A, CharSet, B)] with B free of cs."""
    n = len(a.trans)
    nob = star(cset(cs.compl()))
    live = live_states(a)
    by = {}
    for q in range(n):
        for lo, hi, t in a.trans[q]:
            if t not in live:
                continue
            for iv in CharSet([(lo, hi)]).inter(cs):
                by.setdefault((q, t), []).append(iv)
    acc = {}
    for (q, t), ivs in by.items():
        B = inter(from_state(a, t), nob)
        if B == EMPTY:
            continue
        acc.setdefault((CharSet.norm(ivs), B), []).append(q)
    out = []
    for (c, B), qs in acc.items():
        A = _canon([list(r) for r in a.trans], [i in qs for i in range(n)], 0)
        if A != EMPTY:
            out.append((A, c, B))
    return out


@lru_cache(None)
def word(a):
    """A shortest string of a (preferring letters), or None."""
    if a == EMPTY:
        return None
    from collections import deque
    dq, seen = deque([(0, "")]), {0}
    while dq:
        q, w = dq.popleft()
        if a.acc[q]:
            return w
        by = {}
        for lo, hi, t in a.trans[q]:
            by.setdefault(t, []).append((lo, hi))
        for t, v in by.items():
            if t not in seen:
                seen.add(t)
                dq.append((t, w + CharSet.norm(v).sample()))
    return None


@lru_cache(None)
def singleton(a):
    """The unique string of a, or None if a has zero or several strings."""
    w = word(a)
    return w if w is not None and a == lit(w) else None


@lru_cache(None)
def finite_words(a, limit=64):
    """All the strings of a if it is finite with at most `limit` of them, else None."""
    live = live_states(a)
    out = []
    n = len(a.trans)

    def go(q, w, d):
        if len(out) > limit or d > n + 1:
            return False
        if a.acc[q]:
            out.append(w)
        for lo, hi, t in a.trans[q]:
            if t in live:
                if hi - lo >= limit:
                    return False
                for c in range(lo, hi + 1):
                    if not go(t, w + chr(dec(c)), d + 1):
                        return False
        return True
    return tuple(out) if go(0, "", 0) and len(out) <= limit else None


@lru_cache(None)
def single_charset(a):
    """If every string of a has exactly one char: the set of those chars; else None."""
    if not subset(a, ANYCHAR) or a == EMPTY:
        return None
    return CharSet.norm([(lo, hi) for lo, hi, t in a.trans[0] if a.acc[t]])


W1 = CharSet.of([(0, 0x7F)])
W2 = CharSet.of([(0x80, 0x7FF)])
W3 = CharSet.of([(0x800, 0xFFFF)])
W4 = CharSet.of([(0x10000, 0x10FFFF)])


@lru_cache(None)
def bytelen_le(n):
    """Strings whose UTF-8 length is at most n."""
    if n < 0:
        return EMPTY
    tr = []
    for i in range(n + 1):
        row = []
        for w, cs in ((1, W1), (2, W2), (3, W3), (4, W4)):
            t = i + w if i + w <= n else n + 1
            row += [(a, b, t) for a, b in cs]
        tr.append(sorted(row))
    tr.append([(0, MAXC, n + 1)])
    return _canon(tr, [True] * (n + 1) + [False], 0)


@lru_cache(None)
def fixed_bytelen(a):
    """The common UTF-8 length of all strings of a, or None."""
    w = word(a)
    if w is None:
        return None
    n = len(w.encode("utf-8"))
    if subset(a, minus(bytelen_le(n), bytelen_le(n - 1))):
        return n
    return None


@lru_cache(None)
def min_bytelen(a):
    n = 0
    while n < 64 and inter(a, bytelen_le(n)) == EMPTY:
        n += 1
    return n


def ends_with(l):
    return concat(ANY, l)


def starts_with(l):
    return concat(l, ANY)


def contains_lang(l):
    return concat(ANY, concat(l, ANY))


def describe(a):
    if a == EMPTY:
        return "∅"
    if a == ANY:
        return "Σ*"
    fw = finite_words(a, 6)
    if fw is not None:
        return "{" + ",".join(repr(x) for x in fw) + "}"
    cs = single_charset(a)
    if cs is not None:
        return cs.show() if len(cs) <= 4 else "[%d ranges]" % len(cs)
    return "⟨%d states, e.g. %r⟩" % (len(a.trans), word(a))


def automaton_langs(nnodes, start, edges):
    """edges: [(u, Lang, v)] -> [Lang of all paths start->v for v in range(nnodes)]."""
    nedges = [[] for _ in range(nnodes)]
    neps = [[] for _ in range(nnodes)]
    for u, l, v in edges:
        off = len(nedges)
        sink = {i for i, r in enumerate(l.trans) if not l.acc[i] and all(t == i for _, _, t in r)}
        for r in l.trans:
            nedges.append([(a, b, t + off) for a, b, t in r if t not in sink])
            neps.append([])
        neps[u].append(off)
        for i, x in enumerate(l.acc):
            if x:
                neps[off + i].append(v)
    order, trans = _subsets(start, nedges, neps)
    return [_canon(trans, [v in s for s in order], 0) for v in range(nnodes)]
