"""Abstract interpreter over monomorphised MIR.

Abstract domain (reduced product, disjunctive):
  * strings  - concatenations of literals and segment variables; each variable carries a regular
               language (relang.Lang); refinement substitutes a variable by a finer concatenation;
  * chars    - one-character string variables;
  * sizes    - linear combinations of segment byte lengths;
  * ADTs     - variant + fields, opaque values are split by variant on first inspection;
  * the rest - uninterpreted terms; decisions on them are recorded as facts of the abstract state.

States that differ in the language of one variable only are joined (an exact join) at every block
and at every return.  Loops are summarised: the abstract states at a loop head form a finite
automaton whose edges are labelled with the language consumed by one iteration, and the language
of the consumed part at each head state is read off that automaton.
"""
import re
import sys
from collections import namedtuple

import relang as R

sys.setrecursionlimit(20000)

V = namedtuple("V", "n")

UNINIT = None

# While a loop is being summarised, one-word languages stay attached to their variable, so that
# "one more character was consumed" looks the same whichever character it was.
LOOPDEPTH = [0]


def word_of(l):
    return None if LOOPDEPTH[0] else R.singleton(l)

UNIT = ("tup", ())


class Bail(Exception):
    """The analysis cannot continue on this path."""


# ------------------------------------------------------------------------------------ values
def mkstr(segs):
    out = []
    for s in segs:
        if isinstance(s, str):
            if not s:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += s
                continue
        out.append(s)
    return ("str", tuple(out))


def is_str(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "str"


def is_ref(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "ref"


def is_adt(v):
    return isinstance(v, tuple) and v and v[0] == "adt"


def is_opq(v):
    return isinstance(v, tuple) and v and v[0] == "opq"


def adt(name, variant, fields=()):
    return ("adt", name, variant, tuple(fields))


OPTION = "std::option::Option"
RESULT = "std::result::Result"


def some(v):
    return adt(OPTION, 1, (v,))


NONE = adt(OPTION, 0)


def ok(v):
    return adt(RESULT, 0, (v,))


def err(v):
    return adt(RESULT, 1, (v,))


def is_some(v):
    return is_adt(v) and v[1] == OPTION and v[2] == 1


def lin(c, terms=()):
    t = tuple(sorted((k, n) for k, n in terms if n))
    if not t:
        return c
    return ("lin", c, t)


def lin_parts(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return v, {}
    if isinstance(v, tuple) and v[0] == "lin":
        return v[1], dict(v[2])
    return None


def lin_add(a, b, k=1):
    c, t = a
    d, u = b
    t = dict(t)
    for x, n in u.items():
        t[x] = t.get(x, 0) + k * n
    return lin(c + k * d, t.items())


def walk_segs(v, f):
    """Rebuild a value, mapping every segment tuple through f (segs -> segs)."""
    if not isinstance(v, tuple) or not v:
        return v
    t = v[0]
    if t == "str" and len(v) == 2:
        return mkstr(f(v[1]))
    if t == "char" and len(v) == 2:
        s = f((v[1],))
        return ("char", s[0]) if len(s) == 1 else ("chars?", s)
    if t == "lin" and len(v) == 3:
        c, terms = v[1], {}
        for n, k in v[2]:
            for s in f((V(n),)):
                if isinstance(s, str):
                    c += k * len(s.encode("utf-8"))
                else:
                    terms[s.n] = terms.get(s.n, 0) + k
        return lin(c, terms.items())
    if isinstance(v, (V, R.CharSet)):
        return v
    out = tuple(walk_segs(x, f) if isinstance(x, tuple) else x for x in v)
    return out


def vars_in(v, acc):
    if isinstance(v, V):
        acc.add(v.n)
    elif isinstance(v, tuple):
        if len(v) == 3 and v[0] == "lin":
            for n, _ in v[2]:
                acc.add(n)
        else:
            for x in v:
                if isinstance(x, tuple):
                    vars_in(x, acc)
    return acc


# ------------------------------------------------------------------------------------ state
NORMAL = {}          # value -> (are its segments normalised?, its variables)


class State:
    __slots__ = ("mem", "lang", "subst", "facts", "notes", "nalloc", "trace")

    def __init__(self):
        self.mem, self.lang, self.subst, self.facts = {}, {}, {}, {}
        self.notes = frozenset()
        self.nalloc = 0
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.lang = dict(self.lang)
        s.subst = dict(self.subst)
        s.facts = dict(self.facts)
        s.notes = self.notes
        s.nalloc = self.nalloc
        s.trace = self.trace
        return s

    def note(self, n):
        self.notes = self.notes | {n}

    def alloc(self, v, kind="H"):
        self.nalloc += 1
        a = (kind, self.nalloc)
        self.mem[a] = v
        return a

    # ---- segment variables
    def newvar(self, name, lang):
        self.lang[name] = lang
        return V(name)

    def resolve(self, segs):
        out = []
        st = list(reversed(segs))
        while st:
            s = st.pop()
            if isinstance(s, V) and s.n in self.subst:
                st.extend(reversed(self.subst[s.n]))
            elif isinstance(s, str):
                if s:
                    if out and isinstance(out[-1], str):
                        out[-1] += s
                    else:
                        out.append(s)
            else:
                out.append(s)
        return tuple(out)

    def res(self, v):
        if not isinstance(v, tuple):
            return v
        try:
            known = NORMAL.get(v)
        except TypeError:
            return walk_segs(v, self.resolve)
        if known is None:
            if len(NORMAL) > 100000:
                NORMAL.clear()
            known = NORMAL[v] = (walk_segs(v, EMPTY.resolve) == v, frozenset(vars_in(v, set())))
        normal, vs = known
        if normal and vs.isdisjoint(self.subst):
            return v
        return walk_segs(v, self.resolve)

    def words(self, segs):
        """Resolved segments with one-word variables spelled out."""
        out = []
        for s in self.resolve(segs):
            if isinstance(s, V) and s.n in self.lang:
                w = R.singleton(self.lang[s.n])
                if w is not None:
                    s = w
            if isinstance(s, str) and out and isinstance(out[-1], str):
                out[-1] += s
            elif s != "":
                out.append(s)
        return tuple(out)

    def seglang(self, s):
        return R.lit(s) if isinstance(s, str) else self.lang.get(s.n, R.ANY)

    def strlang(self, segs):
        return R.concat_all([self.seglang(s) for s in self.resolve(segs)])

    def define(self, var, parts):
        """Substitute var by parts: [(suffix, Lang)], turning singletons into literals."""
        segs = []
        for suf, l in parts:
            w = word_of(l)
            if w is None and l == R.EPS:
                w = ""
            if w is not None:
                segs.append(w)
            else:
                n = var.n + suf
                self.lang[n] = l
                segs.append(V(n))
        self.subst[var.n] = tuple(s for s in segs if s != "")
        self.lang.pop(var.n, None)
        return segs

    def restrict(self, var, l):
        w = "" if l == R.EPS else word_of(l)
        if w is not None:
            self.subst[var.n] = (w,) if w else ()
            self.lang.pop(var.n, None)
        else:
            self.lang[var.n] = l


def split_first(st, segs):
    """[(st, None)] (empty) or [(st, (char seg, rest segs))]."""
    segs = st.resolve(segs)
    if not segs:
        return [(st, None)]
    s = segs[0]
    if isinstance(s, str):
        rest = ((s[1:],) if len(s) > 1 else ()) + segs[1:]
        return [(st, (s[0], rest))]
    l = st.lang.get(s.n, R.ANY)
    if not l.acc[0] and R.subset(l, R.ANYCHAR):
        return [(st, (s, segs[1:]))]
    out = []
    if l.acc[0]:
        t = st.copy()
        t.define(s, [])
        out += split_first(t, segs[1:])
    for cs, r in R.first_splits(l):
        t = st.copy()
        p = t.define(s, [("^h", R.cset(cs)), ("^t", r)])
        out.append((t, (p[0], tuple(x for x in p[1:] if x != "") + segs[1:])))
    return out


def split_last(st, segs):
    segs = st.resolve(segs)
    if not segs:
        return [(st, None)]
    s = segs[-1]
    if isinstance(s, str):
        rest = segs[:-1] + ((s[:-1],) if len(s) > 1 else ())
        return [(st, (s[-1], rest))]
    l = st.lang.get(s.n, R.ANY)
    if not l.acc[0] and R.subset(l, R.ANYCHAR):
        return [(st, (s, segs[:-1]))]
    out = []
    if l.acc[0]:
        t = st.copy()
        t.define(s, [])
        out += split_last(t, segs[:-1])
    for pre, cs in R.last_splits(l):
        t = st.copy()
        p = t.define(s, [("^i", pre), ("^l", R.cset(cs))])
        out.append((t, (p[1], segs[:-1] + tuple(x for x in p[:1] if x != ""))))
    return out


def find_char(st, segs, cs, pre=()):
    """First char of cs: [(st, None)] absent, or [(st, (before, charseg, after))]."""
    segs = st.resolve(segs)
    if not segs:
        return [(st, None)]
    s = segs[0]
    if isinstance(s, str):
        for i, c in enumerate(s):
            k = R.enc(ord(c))
            if any(a <= k <= b for a, b in cs):
                b4 = pre + ((s[:i],) if i else ())
                af = ((s[i + 1:],) if i + 1 < len(s) else ()) + segs[1:]
                return [(st, (b4, c, af))]
        return find_char(st, segs[1:], cs, pre + (s,))
    l = st.lang.get(s.n, R.ANY)
    no = R.inter(l, R.star(R.cset(cs.compl())))
    out = []
    if no != R.EMPTY:
        t = st.copy() if no != l else st
        t.restrict(s, no)
        out += find_char(t, segs[1:], cs, pre + t.resolve((s,)))
    if no != l:
        for a, c, b in R.find_splits(l, cs):
            t = st.copy()
            p = t.define(s, [("^a", a), ("^m", R.cset(c)), ("^b", b)])
            out.append((t, (pre + tuple(x for x in p[:1] if x != ""), p[1],
                            tuple(x for x in p[2:] if x != "") + segs[1:])))
    return out


def rfind_char(st, segs, cs, post=()):
    segs = st.resolve(segs)
    if not segs:
        return [(st, None)]
    s = segs[-1]
    if isinstance(s, str):
        for i in range(len(s) - 1, -1, -1):
            k = R.enc(ord(s[i]))
            if any(a <= k <= b for a, b in cs):
                b4 = segs[:-1] + ((s[:i],) if i else ())
                af = ((s[i + 1:],) if i + 1 < len(s) else ()) + post
                return [(st, (b4, s[i], af))]
        return rfind_char(st, segs[:-1], cs, (s,) + post)
    l = st.lang.get(s.n, R.ANY)
    no = R.inter(l, R.star(R.cset(cs.compl())))
    out = []
    if no != R.EMPTY:
        t = st.copy() if no != l else st
        t.restrict(s, no)
        out += rfind_char(t, segs[:-1], cs, t.resolve((s,)) + post)
    if no != l:
        for a, c, b in R.rfind_splits(l, cs):
            t = st.copy()
            p = t.define(s, [("^a", a), ("^m", R.cset(c)), ("^b", b)])
            out.append((t, (segs[:-1] + tuple(x for x in p[:1] if x != ""), p[1],
                            tuple(x for x in p[2:] if x != "") + post)))
    return out


def dfa_path(P, q, targets):
    return R.path_lang(P, q, frozenset(targets))


def split_by_dfa(st, segs, P):
    """Partition by membership of the string in P: [(st, bool)]."""
    segs = st.resolve(segs)
    if P == R.ANY:
        return [(st, True)]
    if P == R.EMPTY:
        return [(st, False)]
    # residual-uniform states: empty or universal
    uni = R.uniform_states(P)
    cur = [(st, 0)]
    out = []
    for i, s in enumerate(segs):
        nxt = []
        last = i == len(segs) - 1
        for t, q in cur:
            if q in uni:
                out.append((t, uni[q]))
                continue
            if isinstance(s, str):
                for c in s:
                    k = R.enc(ord(c))
                    for lo, hi, tg in P.trans[q]:
                        if lo <= k <= hi:
                            q = tg
                            break
                nxt.append((t, q))
                continue
            l = t.seglang(s) if s.n in t.lang or s.n not in t.subst else None
            if l is None:  # was turned into a literal by an earlier occurrence
                lw = t.strlang((s,))
            else:
                lw = l
            groups = {}
            for p in range(len(P.trans)):
                if last:
                    g = ("acc", P.acc[p])
                elif p in uni:
                    g = ("uni", uni[p])
                else:
                    g = ("st", p)
                groups.setdefault(g, set()).add(p)
            parts = []
            for g, tgt in groups.items():
                x = R.inter(lw, dfa_path(P, q, tgt))
                if x != R.EMPTY:
                    parts.append((x, g, min(tgt)))
            for x, g, p in parts:
                u = t
                if len(parts) > 1:
                    u = t.copy()
                    if l is not None:
                        u.restrict(s, x)
                if g[0] == "acc":
                    out.append((u, g[1]))
                else:
                    nxt.append((u, p))
        cur = nxt
    for t, q in cur:
        out.append((t, P.acc[q]))
    # exact join of same verdicts is left to the caller
    return out


EMPTY = State()


# ------------------------------------------------------------------------------------ program
class Fn:
    __slots__ = ("id", "name", "df", "crate", "kind", "args", "ty", "body", "stopped", "an", "aux")

    def __init__(self, j):
        self.id, self.name, self.crate, self.kind = j["id"], j["name"], j["crate"], j["kind"]
        self.df = norm_def(j["def"])
        self.args, self.ty, self.stopped = j["args"], j["ty"], j["stopped"]
        self.body = j["body"]
        self.aux = j.get("aux") or {}
        self.an = None


def norm_def(s):
    s = re.sub(r"<'[a-z_]+>", "", s)
    s = re.sub(r"'[a-z_]+,\s*", "", s)
    s = re.sub(r"&'[a-z_]+ ", "&", s)
    s = s.replace("::<>", "").replace("::::", "::")
    return s


class Program:
    def __init__(self, j):
        self.fns = [Fn(f) for f in sorted(j["fns"], key=lambda f: f["id"])]
        self.tys = j["tys"]
        self.adts = j["adts"]
        self.roots = {}
        for n, i in j["roots"]:
            self.roots[n.split("::")[-1]] = self.fns[i]
        self.json = j

    def ty(self, i):
        return self.tys[i]


class BodyInfo:
    """Control-flow facts of one body: reachable blocks, RPO, loops, liveness."""

    def __init__(self, b):
        self.b = b
        n = len(b["blocks"])
        self.succ = [self._succ(bl["t"]) for bl in b["blocks"]]
        # RPO
        seen, post = set(), []

        def dfs(r):
            st = [(r, iter(self.succ[r]))]
            seen.add(r)
            while st:
                q, it = st[-1]
                for t in it:
                    if t not in seen:
                        seen.add(t)
                        st.append((t, iter(self.succ[t])))
                        break
                else:
                    post.append(q)
                    st.pop()
        dfs(0)
        order = list(reversed(post))
        self.rpo = {q: i for i, q in enumerate(order)}
        pred = {q: [] for q in order}
        for q in order:
            for t in self.succ[q]:
                pred[t].append(q)
        # natural loops (back edge = edge to a block not after us in RPO)
        self.loops = {}
        for q in order:
            for t in self.succ[q]:
                if self.rpo[t] <= self.rpo[q]:
                    body = self.loops.setdefault(t, {t})
                    wl = [q]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl.extend(pred[x])
        self._liveness(order)

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        if k == "assert":
            return [t[4]]
        return []

    def _liveness(self, order):
        b = self.b
        nl = len(b["locals"])
        self.addr_taken = set()

        def use_place(p, use):
            use.add(p[0])
            for e in p[1]:
                if e[0] == "i":
                    use.add(e[1])

        def use_op(o, use):
            if isinstance(o, dict) and "p" in o:
                use_place(o["p"], use)

        def rv(r, use):
            k = r[0]
            if k in ("use", "repeat"):
                use_op(r[1], use)
            elif k in ("ref", "addr", "discr", "len"):
                use_place(r[1], use)
                if k in ("ref", "addr") and not any(e[0] == "d" for e in r[1][1]):
                    self.addr_taken.add(r[1][0])
            elif k == "agg":
                for o in r[2]:
                    use_op(o, use)
            elif k in ("bin", "cbin"):
                use_op(r[2], use)
                use_op(r[3], use)
            elif k == "cast":
                use_op(r[2], use)
            elif k == "un":
                use_op(r[2], use)
        gen, kill = {}, {}
        for q in order:
            g, k = set(), set()
            bl = b["blocks"][q]

            def apply(use, defs):
                for u in use:
                    if u not in k:
                        g.add(u)
                k.update(defs)
            for s in bl["s"]:
                use, defs = set(), set()
                if s[0] == "=":
                    rv(s[2], use)
                    if s[1][1]:
                        use_place(s[1], use)
                    else:
                        defs.add(s[1][0])
                elif s[0] == "sd":
                    use_place(s[1], use)
                elif s[0] == "dead":
                    defs.add(s[1])
                apply(use, defs)
            t = bl["t"]
            use, defs = set(), set()
            if t[0] == "switch":
                use_op(t[1], use)
            elif t[0] == "call":
                use_op(t[1], use)
                for o in t[2]:
                    use_op(o, use)
                if t[3][1]:
                    use_place(t[3], use)
                else:
                    defs.add(t[3][0])
            elif t[0] == "assert":
                use_op(t[1], use)
            elif t[0] == "drop":
                pass
            elif t[0] == "return":
                use.add(0)
            apply(use, defs)
            gen[q], kill[q] = g, k
        self.live_in = {q: set() for q in order}
        ch = True
        while ch:
            ch = False
            for q in reversed(order):
                out = set()
                for t in self.succ[q]:
                    out |= self.live_in[t]
                new = gen[q] | (out - kill[q])
                if new != self.live_in[q]:
                    self.live_in[q] = new
                    ch = True


Res = namedtuple("Res", "kind st val")  # kind: ret | panic


class Interp:
    MAXSTEPS = 400000

    def __init__(self, prog, models):
        self.p = prog
        self.models = models
        self.depth = 0
        self.steps = 0
        self.stack = []
        self.bases = {}
        self.lazies = {}
        self.visited = set()     # function ids analysed
        self.calls = {}          # (caller, callee) call sites seen
        self.map_iters = self.rep_maps = False
        self.counting = False    # following a loop whose counter has many values
        self.invariants = {}     # (adt name, field) -> Lang
        self.terms = {}          # uninterpreted function -> argument tuples met so far
        self.reps = {}           # variable -> alternatives of the repeated text

    # ---------------------------------------------------------------- symbolic inputs
    def mk_sym(self, st, ty, name):
        t = self.p.ty(ty)
        k = t["k"]
        if k == "bool":
            return ("sbool", ("b", name), False)
        if k == "char":
            st.newvar(name, R.ANYCHAR)
            return ("char", V(name))
        if k in ("int", "uint"):
            return ("sint", ("i", name))
        if k == "str":
            return self.sym_str(st, name)
        if k == "ref":
            e = self.p.ty(t["e"])
            if e["k"] == "str":
                return self.sym_str(st, name)
            a = ("S", name)
            if a not in st.mem:
                st.mem[a] = self.mk_sym(st, t["e"], name)
            return ("ref", a, ())
        if k == "tuple":
            return ("tup", tuple(self.mk_sym(st, e, "%s.%d" % (name, i)) for i, e in enumerate(t["es"])))
        if k == "adt":
            d = t["def"]
            if d in ("std::string::String",):
                return self.sym_str(st, name)
            f = self.models.symbolic.get(d)
            if f:
                return f(self, st, ty, name)
            info = self.p.adts[d]
            if t.get("vs") and info["kind"] == "struct":
                fs = []
                for i, ft in enumerate(t["vs"][0]):
                    fn = "%s.%s" % (name, info["variants"][0]["fields"][i])
                    v = self.mk_sym(st, ft, fn)
                    inv = self.invariants.get((d, i))
                    if inv is not None and is_str(v) and len(v[1]) == 1 and isinstance(v[1][0], V) \
                            and v[1][0].n not in st.subst:
                        st.lang[v[1][0].n] = R.inter(st.lang.get(v[1][0].n, R.ANY), inv)
                    fs.append(v)
                return adt(d, 0, fs)
        return ("opq", ("s", name), ty)

    def sym_str(self, st, name):
        if name not in st.lang and name not in st.subst:
            st.newvar(name, R.ANY)
        return ("str", (V(name),))

    def force(self, st, v):
        """Expand an opaque enum value: [(st, value)]."""
        if not is_opq(v):
            return [(st, v)]
        t = self.p.ty(v[2])
        if t["k"] != "adt" or not t.get("vs"):
            return [(st, v)]
        info = self.p.adts[t["def"]]
        key = ("variant", v[1])
        out = []
        for i, var in enumerate(info["variants"]):
            if key in st.facts and st.facts[key] != i:
                continue
            s = st.copy() if key not in st.facts else st
            s.facts[key] = i
            base = self.term_name(v[1])
            fs = []
            for j, ft in enumerate(t["vs"][i]):
                fs.append(self.mk_sym(s, ft, "%s~%s.%s" % (base, var["name"], var["fields"][j])))
            out.append((s, adt(t["def"], i, fs)))
        return out

    @staticmethod
    def term_name(t):
        return t[1] if isinstance(t, tuple) and len(t) == 2 and t[0] == "s" else repr(t)

    # ---------------------------------------------------------------- memory
    @staticmethod
    def sub(v, p):
        i = p[1]
        t = v[0] if isinstance(v, tuple) and v else None
        if t == "adt":
            return v[3][i]
        if t in ("tup", "arr"):
            return v[1][i]
        if t == "clo":
            return v[2][i]
        if t == "slice":   # ('slice', addr, proj, start, end)
            raise Bail("slice projection")
        if t == "box":
            return v
        raise Bail("projection %r of %r" % (p, str(v)[:80]))

    @staticmethod
    def put(v, p, x):
        i = p[1]
        t = v[0] if isinstance(v, tuple) and v else None
        if t == "adt":
            return ("adt", v[1], v[2], v[3][:i] + (x,) + v[3][i + 1:])
        if t in ("tup", "arr"):
            return (t, v[1][:i] + (x,) + v[1][i + 1:])
        if t == "clo":
            return ("clo", v[1], v[2][:i] + (x,) + v[2][i + 1:])
        raise Bail("store into %r" % (str(v)[:60],))

    def load(self, st, addr, proj):
        if addr not in st.mem:
            raise Bail("load of dead memory %r" % (addr,) + (" in " + " < ".join(self.p.fns[x].name[:80] for x in self.stack[::-1]) if __import__("os").environ.get("DBG") else ""))
        v = st.mem[addr]
        for p in proj:
            v = self.sub(v, p)
        return v

    def store(self, st, addr, proj, x):
        def go(v, ps):
            if not ps:
                return x
            return self.put(v, ps[0], go(self.sub(v, ps[0]), ps[1:]))
        if not proj:
            st.mem[addr] = x
        else:
            if st.mem.get(addr) is None:
                raise Bail("store into uninitialised")
            st.mem[addr] = go(st.mem[addr], proj)

    def deref(self, st, v):
        """Value behind a reference value."""
        if is_ref(v):
            return self.load(st, v[1], v[2])
        if isinstance(v, tuple) and v and v[0] == "box":
            return self.load(st, v[1], ())
        return v

    def deref_all(self, st, v):
        while is_ref(v):
            v = self.load(st, v[1], v[2])
        return v

    def place(self, st, d, pl, want_value=False):
        """-> (addr, proj) ; may update st in place (materialising opaque fields)."""
        addr, proj = ("L", d, pl[0]), ()
        for e in pl[1]:
            if e[0] == "d":
                v = self.load(st, addr, proj)
                if is_ref(v):
                    addr, proj = v[1], v[2]
                elif isinstance(v, tuple) and v and v[0] == "box":
                    addr, proj = v[1], ()
                elif is_opq(v):
                    t = self.p.ty(v[2])
                    if t["k"] in ("ref", "ptr"):
                        a = ("S", self.term_name(v[1]) + ".*")
                        if a not in st.mem:
                            st.mem[a] = self.mk_sym(st, t["e"], self.term_name(v[1]) + ".*")
                        addr, proj = a, ()
                    else:
                        pass
                else:
                    pass  # &str and other by-value references
            elif e[0] == "f":
                v = self.load(st, addr, proj)
                if is_opq(v):
                    t = self.p.ty(v[2])
                    info = self.p.adts.get(t.get("def"), None)
                    if t["k"] == "adt" and info and info["kind"] == "struct":
                        n = len(info["variants"][0]["fields"])
                        fs = [("opq", ("fld", v[1], i), -1) for i in range(n)]
                        fs[e[1]] = self.mk_sym(st, e[2], "%s.%s" % (self.term_name(v[1]), info["variants"][0]["fields"][e[1]]))
                        self.store(st, addr, proj, adt(t["def"], 0, fs))
                    else:
                        raise Bail("field of opaque %s" % t["name"])
                elif is_adt(v) and is_opq(v[3][e[1]]) and v[3][e[1]][2] == -1:
                    x = v[3][e[1]]
                    self.store(st, addr, proj + (("f", e[1]),),
                               self.mk_sym(st, e[2], "%s.%d" % (self.term_name(x[1][1]), e[1])))
                if isinstance(v, tuple) and v and v[0] == "box":
                    continue
                if isinstance(v, tuple) and v and v[0] in ("str", "char") or isinstance(v, (int, bool)):
                    raise Bail("field of scalar/str value")
                proj = proj + (("f", e[1]),)
            elif e[0] == "v":
                v = self.load(st, addr, proj)
                if is_opq(v):
                    fs = self.force(st, v)
                    if len(fs) != 1:
                        raise Bail("downcast of undetermined enum")
                    self.store(st, addr, proj, fs[0][1])
            elif e[0] == "i":
                i = self.load(st, ("L", d, e[1]), ())
                addr, proj = self.index_loc(st, addr, proj, i)
            elif e[0] == "ci":
                off, _, from_end = e[1], e[2], e[3]
                v = self.load(st, addr, proj)
                n = len(v[1]) if isinstance(v, tuple) and v[0] == "arr" else None
                if n is None:
                    raise Bail("constant index")
                addr, proj = self.index_loc(st, addr, proj, n - off if from_end else off)
            else:
                raise Bail("projection %r" % (e,))
        return addr, proj

    def index_loc(self, st, addr, proj, i):
        v = self.load(st, addr, proj)
        if isinstance(i, int) and isinstance(v, tuple) and v and v[0] == "arr" and 0 <= i < len(v[1]):
            return addr, proj + (("f", i),)
        raise Bail("index %r" % (i,))

    # ---------------------------------------------------------------- operands
    def const(self, st, c):
        v = c["v"]
        return self.const_val(st, v, c["ty"])

    def const_val(self, st, v, ty=None):
        if "int" in v:
            return v["int"]
        if "bool" in v:
            return v["bool"]
        if "char" in v:
            return ("char", chr(v["char"]))
        if "str" in v:
            return mkstr((v["str"],))
        if "tup" in v:
            return ("tup", tuple(self.const_val(st, x) for x in v["tup"]))
        if "arr" in v:
            return ("arr", tuple(self.const_val(st, x) for x in v["arr"]))
        if "adt" in v:
            n = self.p.ty(ty)["def"] if ty is not None and self.p.ty(ty)["k"] == "adt" else v.get("def", "?")
            vs = self.p.ty(ty).get("vs") if ty is not None and self.p.ty(ty)["k"] == "adt" else None
            fs = []
            for i, x in enumerate(v["f"]):
                ft = vs[v["adt"]][i] if vs else None
                fs.append(self.const_val(st, x, ft))
            return adt(n, v["adt"], fs)
        if "ref" in v:
            et = None
            if ty is not None and self.p.ty(ty)["k"] in ("ref", "ptr"):
                et = self.p.ty(ty)["e"]
                if self.p.ty(et)["k"] == "str":
                    return self.const_val(st, v["ref"])
            x = self.const_val(st, v["ref"], et)
            a = ("C", repr(x))
            st.mem[a] = x
            return ("ref", a, ())
        if "fn" in v:
            return ("fn", v["fn"])
        if "closure" in v:
            return ("clo", v["closure"], ())
        if "opaque" in v and ty is not None:
            return ("opq", ("const", v["opaque"]), ty)
        return ("opq", ("const", repr(v)), ty if ty is not None else -1)

    def operand(self, st, d, o):
        if "c" in o:
            return self.const(st, o["c"])
        if "rt" in o:
            return True
        a, p = self.place(st, d, o["p"])
        v = self.load(st, a, p)
        if v is UNINIT:
            raise Bail("read of uninitialised/moved local _%d" % o["p"][0])
        return v

    # ---------------------------------------------------------------- char / int tests
    def char_cmp(self, st, seg, op, k):
        """Compare char segment with code point k: [(st, bool)]."""
        m = {"Eq": (k, k), "Lt": (0, k - 1), "Le": (0, k), "Gt": (k + 1, 0x10FFFF), "Ge": (k, 0x10FFFF)}
        neg = False
        if op == "Ne":
            op, neg = "Eq", True
        lo, hi = m[op]
        lo, hi = max(lo, 0), min(hi, 0x10FFFF)
        cs = R.CharSet.of([(lo, hi)]) if lo <= hi else R.CharSet([])
        return [(s, b != neg) for s, b in self.char_in(st, seg, cs)]

    def char_in(self, st, seg, cs):
        return split_by_dfa(st, (seg,), R.cset(cs) if cs else R.EMPTY)

    def seg1(self, st, seg):
        r = st.resolve((seg,))
        return r[0] if len(r) == 1 else seg

    def fact(self, st, term):
        """What the path already knows about an uninterpreted boolean term (or None)."""
        if term in st.facts:
            return st.facts[term]
        if isinstance(term, tuple) and st.subst:
            t = self.unordered(st.res(term))
            for k, v in st.facts.items():
                if isinstance(k, tuple) and k[0] == term[0] and isinstance(v, bool) and \
                        self.unordered(st.res(k)) == t:
                    return v
        return None

    @staticmethod
    def unordered(t):
        """Canonical form of a symmetric relation."""
        if t[0] in ("seq", "ueq", "meq") and repr(t[2]) < repr(t[1]):
            return (t[0], t[2], t[1])
        return t

    def same_term(self, st, kind, payload):
        """The representative of an uninterpreted function application with equal arguments."""
        r = st.res(payload)
        l = self.terms.setdefault(kind, [])
        for q in l:
            if q == payload or st.res(q) == r:
                return q
        l.append(payload)
        return payload

    def term_id(self, st, kind, payload):
        """The name of an uninterpreted function application; the state remembers what it stands for."""
        r = st.res(payload)
        for k, v in st.facts.items():
            if k[0] == "term" and k[1] == kind and st.res(k[2]) == r:
                return v
        q = self.same_term(st, kind, payload)
        n = "%s#%d" % (kind, self.terms[kind].index(q))
        if vars_in(r, set()):
            st.facts[("term", kind, r)] = n
        return n

    def term_payload(self, st, n):
        """The arguments of the application a name stands for."""
        for k, v in st.facts.items():
            if k[0] == "term" and v == n:
                return st.res(k[2])
        kind, i = n.rsplit("#", 1)
        return st.res(self.terms[kind][int(i)])

    def decide(self, st, term, neg=False):
        """Fork on an uninterpreted boolean term: [(st, bool)]."""
        known = self.fact(st, term)
        if known is not None:
            return [(st, known != neg)]
        a, b = st.copy(), st.copy()
        a.facts[term] = True
        b.facts[term] = False
        return [(a, not neg), (b, neg)]

    def truth(self, st, v):
        if isinstance(v, bool):
            return [(st, v)]
        if isinstance(v, tuple) and v[0] == "sbool":
            return self.decide(st, v[1], v[2])
        if isinstance(v, int):
            return [(st, bool(v))]
        if is_opq(v):
            return self.decide(st, ("bool", v[1]))
        raise Bail("truth of %r" % (v,))

    def as_lin(self, st, v):
        v = st.res(v)
        lp = lin_parts(v)
        if lp is None:
            return None
        c, t = lp
        # variables of fixed length
        out = {}
        for n, k in t.items():
            f = R.fixed_bytelen(st.lang[n]) if n in st.lang else None
            if f is not None:
                c += k * f
            else:
                out[n] = k
        return c, out

    def lin_nonneg(self, st, c, t):
        """[(st, bool)] for c + sum k*len(n) >= 0."""
        t = {n: k for n, k in t.items() if k}
        lo = c
        unb = False
        for n, k in t.items():
            l = st.lang.get(n, R.ANY)
            if k > 0:
                lo += k * R.min_bytelen(l)
            else:
                unb = True
        if not unb and lo >= 0:
            return [(st, True)]
        if not t:
            return [(st, c >= 0)]
        if len(t) == 1:
            (n, k), = t.items()
            if k > 0:
                need = -(c // k) if c % k == 0 else (-c + k - 1) // k   # len >= need
                if 0 < need <= 300:
                    return [(s, not b) for s, b in split_by_dfa(st, (V(n),), R.bytelen_le(need - 1))]
            else:
                mx = c // (-k)     # len <= mx
                if mx < 0:
                    return [(st, False)]
                if mx <= 300:
                    return split_by_dfa(st, (V(n),), R.bytelen_le(mx))
        if all(k < 0 for k in t.values()) and c < 0:
            return [(st, False)]
        tt = tuple(sorted(t.items()))
        neg = tuple((n, -k) for n, k in tt)
        for f, v in st.facts.items():
            if isinstance(f, tuple) and len(f) == 3 and f[0] == "nonneg":
                f = st.res(f)
                # t >= -c0 (v) or t <= -c0 - 1 (not v), and the same for -t
                if f[2] == tt:
                    lo, hi = (-f[1], None) if v else (None, -f[1] - 1)
                elif f[2] == neg:
                    lo, hi = (None, f[1]) if v else (f[1] + 1, None)
                else:
                    continue
                if lo is not None and lo + c >= 0:
                    return [(st, True)]
                if hi is not None and hi + c < 0:
                    return [(st, False)]
        term = ("nonneg", c, tt)
        return self.decide(st, term)

    def binop(self, st, op, a, b):
        """-> [(st, value)]"""
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        over = op.endswith("WithOverflow")
        cmpo = base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")
        a, b = st.res(a), st.res(b)
        isch = lambda v: isinstance(v, tuple) and v and v[0] == "char"
        if base == "Offset":
            raise Bail("pointer offset")
        if cmpo:
            # a byte of a multi-byte character is at least 0x80
            hb = lambda v: isinstance(v, tuple) and v and v[0] == "sint" and v[1][0] == "hibyte"
            asc = lambda v: isinstance(v, int) and 0 <= v < 0x80 or isch(v)
            if hb(a) and asc(b):
                return [(st, base in ("Ne", "Gt", "Ge"))]
            if hb(b) and asc(a):
                return [(st, base in ("Ne", "Lt", "Le"))]
        if base == "Cmp":
            out = []
            for s, lt in self.binop(st, "Lt", a, b):
                for s1, l in self.truth(s, lt):
                    if l:
                        out.append((s1, adt("std::cmp::Ordering", 0)))
                        continue
                    for s2, eq in self.binop(s1, "Eq", a, b):
                        for s3, e in self.truth(s2, eq):
                            out.append((s3, adt("std::cmp::Ordering", 1 if e else 2)))
            return out
        # concrete
        ka = ord(a[1]) if isch(a) and isinstance(a[1], str) else a
        kb = ord(b[1]) if isch(b) and isinstance(b[1], str) else b
        if isinstance(ka, int) and isinstance(kb, int):
            if cmpo:
                return [(st, {"Eq": ka == kb, "Ne": ka != kb, "Lt": ka < kb, "Le": ka <= kb,
                              "Gt": ka > kb, "Ge": ka >= kb}[base])]
            if isinstance(ka, bool) and isinstance(kb, bool) and base in ("BitAnd", "BitOr", "BitXor"):
                return [(st, {"BitAnd": ka & kb, "BitOr": ka | kb, "BitXor": ka ^ kb}[base])]
            try:
                r = {"Add": lambda: ka + kb, "Sub": lambda: ka - kb, "Mul": lambda: ka * kb,
                     "BitAnd": lambda: ka & kb, "BitOr": lambda: ka | kb, "BitXor": lambda: ka ^ kb,
                     "Div": lambda: ka // kb, "Rem": lambda: ka % kb, "Shl": lambda: ka << kb,
                     "Shr": lambda: ka >> kb}[base]()
            except (KeyError, ZeroDivisionError):
                raise Bail("binop %s" % op)
            if over:
                return [(st, ("tup", (r, r < 0 or r > 2 ** 64 - 1)))]
            return [(st, r)]
        # chars
        if cmpo and (isch(a) or isch(b)):
            flip = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}
            if isch(a) and isinstance(kb, int):
                return self.char_cmp(st, a[1], base, kb)
            if isch(b) and isinstance(ka, int):
                return self.char_cmp(st, b[1], flip[base], ka)
            if isch(a) and isch(b):
                if a == b:
                    return [(st, base in ("Eq", "Le", "Ge"))]
                if base in ("Eq", "Ne"):
                    return [(s, e != (base == "Ne")) for s, e in self.str_eq(st, (a[1],), (b[1],))]
                return self.decide(st, ("ccmp", base, a, b))
        # booleans
        if isinstance(a, (bool,)) or isinstance(b, bool) or (isinstance(a, tuple) and a[0] == "sbool"):
            out = []
            for s, x in self.truth(st, a):
                for s2, y in self.truth(s, b):
                    if base in ("Eq", "Ne", "BitAnd", "BitOr", "BitXor", "Lt", "Le", "Gt", "Ge"):
                        out.append((s2, {"Eq": x == y, "Ne": x != y, "BitAnd": x and y, "BitOr": x or y,
                                         "BitXor": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y,
                                         "Ge": x >= y}[base]))
                    else:
                        raise Bail("bool binop " + op)
            return out
        # saturated counters
        atl = lambda v: isinstance(v, tuple) and v and v[0] == "atl"
        if atl(a) or atl(b):
            if base == "Add":
                x = a[1] if atl(a) else a
                y = b[1] if atl(b) else b
                if isinstance(x, int) and isinstance(y, int):
                    r = ("atl", max(min(x + y, 4), 0) if x + y < 4 else 4)
                    return [(st, ("tup", (r, False)) if over else r)]
            if cmpo and atl(a) and isinstance(b, int):
                n = a[1]
                if base in ("Gt",) and n > b or base == "Ge" and n >= b:
                    return [(st, True)]
                if base in ("Lt",) and n >= b or base == "Le" and n > b or base == "Eq" and n > b:
                    return [(st, False)]
                if base == "Ne" and n > b:
                    return [(st, True)]
            if cmpo and atl(b) and isinstance(a, int):
                flip = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}
                return self.binop(st, flip[base], b, a)
            st = st.copy()
            st.note("saturated counter")
            if cmpo:
                return self.decide(st, ("cmp", base, a, b))
            r = ("sint", (base, a, b))
            return [(st, ("tup", (r, False)) if over else r)]
        la, lb = self.as_lin(st, a), self.as_lin(st, b)
        if la is not None and lb is not None:
            if base in ("Add", "Sub"):
                r = lin_add(la, lb, 1 if base == "Add" else -1)
                if not over:
                    return [(st, r)]
                if base == "Add":
                    return [(st, ("tup", (r, False)))]
                c, t = lin_parts(r)
                return [(s, ("tup", (r, not nn))) for s, nn in self.lin_nonneg(st, c, t)]
            if cmpo:
                c, t = lin_parts(lin_add(la, lb, -1))      # a - b
                mc, mt = -c, {n: -k for n, k in t.items()}
                if base == "Ge":
                    return self.lin_nonneg(st, c, t)
                if base == "Le":
                    return self.lin_nonneg(st, mc, mt)
                if base == "Gt":
                    return self.lin_nonneg(st, c - 1, t)
                if base == "Lt":
                    return self.lin_nonneg(st, mc - 1, mt)
                out = []
                for s, x in self.lin_nonneg(st, c, t):
                    if not x:
                        out.append((s, base == "Ne"))
                        continue
                    r = self.as_lin(s, lin(mc, mt.items()))
                    for s2, y in self.lin_nonneg(s, *r):
                        out.append((s2, y == (base == "Eq")))
                return out
        # uninterpreted
        if cmpo:
            if a == b:
                return [(st, base in ("Eq", "Le", "Ge"))]
            if base == "Ne":
                return [(st, ("sbool", self.cmp_term("Eq", a, b), True))]
            if base == "Gt":
                return [(st, ("sbool", ("cmp", "Lt", b, a), False))]
            if base == "Le":
                return [(st, ("sbool", ("cmp", "Lt", b, a), True))]
            if base == "Ge":
                return [(st, ("sbool", ("cmp", "Lt", a, b), True))]
            if base == "Lt":
                return [(st, ("sbool", ("cmp", "Lt", a, b), False))]
            return [(st, ("sbool", self.cmp_term("Eq", a, b), False))]
        r = ("sint", (base, a, b))
        if base in ("Add", "Mul", "BitAnd", "BitOr") and repr(b) < repr(a):
            r = ("sint", (base, b, a))
        if over:
            st = st.copy()
            return [(s, ("tup", (r, o))) for s, o in self.decide(st, ("ovf", base, a, b))]
        return [(st, r)]

    @staticmethod
    def cmp_term(op, a, b):
        if repr(b) < repr(a):
            a, b = b, a
        return ("cmp", op, a, b)

    def str_eq(self, st, a, b):
        """[(st, bool)] for equality of two segment lists."""
        a, b = list(st.words(a)), list(st.words(b))
        while a and b:
            x, y = a[0], b[0]
            if x == y:
                a.pop(0), b.pop(0)
            elif isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < min(len(x), len(y)) and x[n] == y[n]:
                    n += 1
                if n < min(len(x), len(y)):
                    return [(st, False)]
                a[0], b[0] = x[n:], y[n:]
                if not a[0]:
                    a.pop(0)
                if not b[0]:
                    b.pop(0)
            else:
                break
        while a and b:
            x, y = a[-1], b[-1]
            if x == y:
                a.pop(), b.pop()
            elif isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < min(len(x), len(y)) and x[-1 - n] == y[-1 - n]:
                    n += 1
                if n < min(len(x), len(y)):
                    return [(st, False)]
                a[-1], b[-1] = x[:len(x) - n], y[:len(y) - n]
                if not a[-1]:
                    a.pop()
                if not b[-1]:
                    b.pop()
            else:
                break
        if not a and not b:
            return [(st, True)]
        for x, y in ((a, b), (b, a)):
            if all(isinstance(s, str) for s in y):
                w = "".join(y)
                return split_by_dfa(st, tuple(x), R.lit(w))
        if len(a) == len(b) == 1:
            ua, ub = self.models.ser_url(self, st, a[0]), self.models.ser_url(self, st, b[0])
            if ua is not None and ub is not None:
                return self.models.url_eq(self, st, ua, ub)
        la, lb = st.strlang(tuple(a)), st.strlang(tuple(b))
        if R.inter(la, lb) == R.EMPTY:
            return [(st, False)]
        ta, tb = tuple(a), tuple(b)
        if repr(tb) < repr(ta):
            ta, tb = tb, ta
        term = ("seq", ("str", ta), ("str", tb))
        known = self.fact(st, term)
        if known is not None:
            return [(st, known)]
        out = []
        f = st.copy()
        f.facts[term] = False
        out.append((f, False))
        t = st.copy()
        t.facts[term] = True
        done = False
        for x, y in ((a, b), (b, a)):
            if len(x) == 1 and x[0] not in y and x[0].n in t.lang:
                for s, bo in split_by_dfa(t, tuple(y), t.lang[x[0].n]):
                    if bo:
                        s = s.copy()
                        s.subst[x[0].n] = tuple(y)
                        s.lang.pop(x[0].n, None)
                        out.append((s, True))
                done = True
                break
        if not done:
            out.append((t, True))
        return out

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, d, r):
        """-> [(st, value)]"""
        k = r[0]
        if k == "use":
            pl = r[1].get("p")
            if pl and pl[1] and pl[1][-1][0] in ("i", "ci"):
                a, p = self.place(st, d, [pl[0], pl[1][:-1]])
                x = self.load(st, a, p)
                if isinstance(x, tuple) and x[:2] == ("obj", "bytes[]"):
                    return self.models.byte_at(self, st, x[2], pl[1][-1] if pl[1][-1][0] == "ci"
                                               else ("i", self.load(st, ("L", d, pl[1][-1][1]), ())))
            return [(st, self.operand(st, d, r[1]))]
        if k in ("ref", "addr"):
            a, p = self.place(st, d, r[1])
            # a reference to a str place is the str value itself
            if r[1][1] and r[1][1][-1][0] == "d":
                v = self.load(st, a, p)
                if self.by_value_ref(st, d, r[1]):
                    return [(st, v)]
            return [(st, ("ref", a, p))]
        if k == "agg":
            vs = tuple(self.operand(st, d, o) for o in r[2])
            kind = r[1][0]
            if kind == "tuple":
                return [(st, ("tup", vs))]
            if kind == "array":
                return [(st, ("arr", vs))]
            if kind == "adt":
                if r[1][3] >= 0:
                    raise Bail("union")
                v = adt(r[1][1], r[1][2], vs)
                h = self.models.aggregate.get(r[1][1])
                return [(st, h(self, st, v) if h else v)]
            if kind == "closure":
                return [(st, ("clo", r[1][3], vs))]
            if kind == "rawptr":
                return [(st, vs[0])]
            raise Bail("aggregate " + kind)
        if k in ("bin", "cbin"):
            return self.binop(st, r[1] if k == "bin" else r[1] + "WithOverflow",
                              self.operand(st, d, r[2]), self.operand(st, d, r[3]))
        if k == "un":
            v = self.operand(st, d, r[2])
            if r[1] == "Not":
                if isinstance(v, bool):
                    return [(st, not v)]
                if isinstance(v, tuple) and v[0] == "sbool":
                    return [(st, ("sbool", v[1], not v[2]))]
            if r[1] == "Neg" and isinstance(v, int):
                return [(st, -v)]
            if r[1] == "PtrMetadata":
                x = self.deref_all(st, v)
                if is_str(x):
                    return [(st, self.str_len(st, x))]
                if isinstance(x, tuple) and x and x[0] == "arr":
                    return [(st, len(x[1]))]
                if isinstance(x, tuple) and x[:2] == ("obj", "bytes[]"):
                    return [(st, self.str_len(st, x[2]))]
            if isinstance(v, tuple) and v[0] in ("sint", "opq"):
                return [(st, ("sint", (r[1], v)))]
            raise Bail("unary %s on %r" % (r[1], v))
        if k == "discr":
            a, p = self.place(st, d, r[1])
            if a not in st.mem and not p and a[0] == "L" and a[1] == len(self.stack):
                only = self.only_variant(self.p.fns[self.stack[-1]].body["locals"][a[2]])
                if only is not None:
                    return [(st, only)]
            v = self.load(st, a, p)
            out = []
            for s, x in self.force(st, v):
                if x is not v:
                    self.store(s, a, p, x)
                out.append((s, self.discr_of(x)))
            return out
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, d, r[2]), r[3])
        if k == "len":
            a, p = self.place(st, d, r[1])
            v = self.load(st, a, p)
            if isinstance(v, tuple) and v[0] == "arr":
                return [(st, len(v[1]))]
            raise Bail("len")
        if k == "repeat":
            if 0 <= r[2] <= 256:
                return [(st, ("arr", (self.operand(st, d, r[1]),) * r[2]))]
        raise Bail("rvalue " + k)

    def only_variant(self, ty):
        """The discriminant of a type with a single inhabited variant, or None."""
        vs = self.p.ty(ty).get("vs")
        if not vs:
            return None

        def uninhabited(t):
            t = self.p.ty(t)
            return t["k"] == "never" or t["k"] == "adt" and t.get("vs") == [] and t["name"].endswith("Infallible")
        left = [i for i, fs in enumerate(vs) if not any(uninhabited(t) for t in fs)]
        return left[0] if len(left) == 1 else None

    def by_value_ref(self, st, d, pl):
        """Is this place (ending in a deref) of a type whose references are by value (str)?"""
        v = None
        addr, proj = self.place(st, d, [pl[0], pl[1][:-1]])
        v = self.load(st, addr, proj)
        return not (is_ref(v) or (isinstance(v, tuple) and v and v[0] == "box"))

    def discr_of(self, v):
        if is_adt(v):
            info = self.p.adts.get(v[1])
            if info and info["kind"] == "enum":
                n = info["variants"][v[2]]["discr"]
                return n - 256 if v[1] == "std::cmp::Ordering" and n > 127 else n
            return v[2]
        if is_opq(v):
            return ("sint", ("discr", v[1]))
        raise Bail("discriminant of %r" % (str(v)[:60],))

    def cast(self, st, kind, v, ty):
        t = self.p.ty(ty)
        if kind in ("IntToInt",):
            if isinstance(v, bool):
                return [(st, int(v))]
            if isinstance(v, int):
                bits = t.get("bits")
                if t["k"] == "uint":
                    v &= (1 << bits) - 1
                elif t["k"] == "int":
                    v &= (1 << bits) - 1
                    if v >> (bits - 1):
                        v -= 1 << bits
                elif t["k"] == "char":
                    return [(st, ("char", chr(v)))]
                return [(st, v)]
            if isinstance(v, tuple) and v[0] == "char":
                if t["k"] == "uint" and t["bits"] == 8:
                    out = []
                    for s, a in split_by_dfa(st, (v[1],), R.cset(R.CharSet.of([(0, 255)]))):
                        if a:
                            out.append((s, v))
                        else:
                            s = s.copy()
                            out.append((s, ("sint", ("trunc8", v))))
                    return out
                return [(st, v)]
            if isinstance(v, tuple) and v[0] == "sbool":
                return [(s, int(b)) for s, b in self.truth(st, v)]
            if isinstance(v, tuple) and v[0] in ("lin", "atl"):
                return [(st, v)]
            if isinstance(v, tuple) and v[0] == "sint":
                return [(st, ("sint", ("as", t["name"], v[1])))]
            return [(st, v)]
        if kind.startswith("ReifyFnPointer") or kind.startswith("ClosureFnPointer"):
            return [(st, v)]
        if kind == "Transmute" and t["k"] == "char" and isinstance(v, int):
            return [(st, ("char", chr(v)))]
        if kind == "Transmute" and isinstance(v, int) and t["k"] == "adt":
            raise Bail("transmute int to adt")
        return [(st, v)]

    def str_len(self, st, v):
        c, t = 0, {}
        for s in st.resolve(v[1]):
            if isinstance(s, str):
                c += len(s.encode("utf-8"))
            else:
                f = R.fixed_bytelen(st.lang[s.n]) if s.n in st.lang else None
                if f is not None:
                    c += f
                else:
                    t[s.n] = t.get(s.n, 0) + 1
        return lin(c, t.items())

    # ---------------------------------------------------------------- join
    def key(self, st, extra):
        mem = tuple(sorted(((a, st.res(v)) for a, v in st.mem.items() if v is not UNINIT and a[0] != "C"),
                           key=lambda kv: repr(kv[0])))
        facts = frozenset((st.res(k), v) for k, v in st.facts.items())
        # structure of every substituted variable, resolved
        sub = tuple(sorted((k, st.resolve(v)) for k, v in st.subst.items() if "^" not in k))
        return (mem, facts, sub, st.notes, st.res(extra) if isinstance(extra, tuple) else extra,
                frozenset(st.lang))

    def join(self, items):
        """items: [(st, extra)] -> joined list.  Exact: only states that differ in the language of
        at most one variable are joined."""
        if len(items) < 2:
            return items
        coarse, groups = {}, {}
        for st, x in items:
            coarse.setdefault((frozenset(st.lang), frozenset(st.subst), frozenset(st.mem), st.notes, len(st.facts)), []).append((st, x))
        out = []
        for c, g in coarse.items():
            if len(g) == 1:
                out += g
                continue
            for st, x in g:
                groups.setdefault((c, self.key(st, x)), []).append((st, x))
        for g in groups.values():
            while True:
                merged = False
                # bucket by "all languages but one"
                names = sorted(g[0][0].lang)
                for n in names:
                    b = {}
                    for st, x in g:
                        k = tuple(st.lang[m] for m in names if m != n)
                        b.setdefault(k, []).append((st, x))
                    if len(b) < len(g):
                        ng = []
                        for v in b.values():
                            st, x = v[0]
                            if len(v) > 1:
                                l = st.lang[n]
                                for s2, _ in v[1:]:
                                    l = R.union(l, s2.lang[n])
                                st = st.copy()
                                st.lang[n] = l
                            ng.append((st, x))
                        g = ng
                        merged = True
                if not merged:
                    break
                if not names:
                    g = g[:1]
            if not g[0][0].lang:
                g = g[:1]
            out += g
        return out

    # ---------------------------------------------------------------- execution
    def info(self, f):
        if f.an is None:
            f.an = BodyInfo(f.body)
        return f.an

    def devirtualise(self, st, f, args):
        """The method a call through a trait object reaches, if the object's type is known."""
        m = re.match(r"<dyn (.*) as (.*)>::(\w+)$", f.name)
        v = self.deref_all(st, args[0]) if args else None
        if not m or type(v) is not tuple:
            return None
        if v[0] == "adt":
            n = v[1]
        elif v[0] == "opq" and isinstance(v[2], int):
            n = self.p.tys[v[2]]["name"]
        else:
            return None
        for g in self.p.fns:
            h = re.match(r"<(.*) as (.*)>::(\w+)$", g.name)
            if h and not g.name.startswith("<dyn ") and h.group(3) == m.group(3) and h.group(2) == m.group(2) and self.same_type(h.group(1), n):
                return g
        return None

    @staticmethod
    def same_type(a, b):
        """rustc prints a type by the path it is reachable by, or by the one it is defined at."""
        x, y = a.split("::"), b.split("::")
        return x == y or (x[0], x[-1]) == (y[0], y[-1]) and (set(x) <= set(y) or set(y) <= set(x))

    def call(self, st, fid, args, rustcall=False):
        """-> [Res]"""
        f = self.p.fns[fid] if isinstance(fid, int) else fid
        if self.stack:
            self.calls[(self.stack[-1], f.id)] = self.calls.get((self.stack[-1], f.id), 0) + 1
        m = self.models.lookup(f)
        if m is not None:
            if rustcall and len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == "tup":
                args = [args[0]] + list(args[1][1])
            r = m(self, st, f, list(args))
            if r is not NotImplemented:
                return [x if isinstance(x, Res) else Res("ret", x[0], x[1]) for x in r]
        if f.kind == "virtual":
            g = self.devirtualise(st, f, args)
            if g is not None:
                return self.call(st, g.id, args)
        if f.kind == "shim" or (rustcall and f.body is None):
            g = self.deref_all(st, args[0]) if args else None
            if isinstance(g, tuple) and g and g[0] in ("fn", "clo"):
                rest = list(args[1:])
                if len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][0] == "tup":
                    rest = list(rest[0][1])
                return self.call_value(st, args[0], rest)
        if f.body is None:
            k = self.constructor(f)
            if k is not None:
                return [Res("ret", st, ("adt",) + k + (tuple(args),))]
            return self.unknown_call(st, f, args)
        if self.stack.count(fid) >= 5:
            raise Bail("recursion in " + self.p.fns[fid].name)
        if len(self.stack) > 60:
            st.note("call depth")
            return self.unknown_call(st, f, args)
        b = f.body
        if rustcall and b["spread"] < 0 and len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == "tup" \
                and "{closure#" in f.df.split("::")[-1]:
            args = [args[0]] + list(args[1][1])
        if b["spread"] >= 0 and len(args) == b["argc"] and False:
            pass
        if len(args) != b["argc"]:
            raise Bail("arity mismatch calling %s" % f.name)
        # closure bodies taking self by reference but called by value
        if args and isinstance(args[0], tuple) and args[0] and args[0][0] == "clo" \
                and self.p.ty(b["locals"][1])["k"] == "ref":
            a = st.alloc(args[0], "K")
            args = [("ref", a, ())] + list(args[1:])
        return self.run(st, f, args)

    def call_value(self, st, g, args):
        """Call a function value (fn item, closure, or reference to one)."""
        gv = g
        ref = None
        while is_ref(gv):
            ref = gv
            gv = self.load(st, gv[1], gv[2])
        if isinstance(gv, tuple) and gv and gv[0] == "fn":
            return self.call(st, gv[1], args)
        if isinstance(gv, tuple) and gv and gv[0] == "clo":
            f = self.p.fns[gv[1]]
            if f.body is None:
                return self.unknown_call(st, f, args)
            if self.p.ty(f.body["locals"][1])["k"] == "ref":
                if ref is None:
                    a = st.alloc(gv, "K")
                    ref = ("ref", a, ())
                return self.call(st, f, [ref] + list(args))
            return self.call(st, f, [gv] + list(args))
        if is_adt(gv) and gv[1].startswith("std::option::Option") is False:
            pass
        raise Bail("call of %r" % (str(gv)[:60],))

    def constructor(self, f):
        """(type, variant) if the function is a constructor used as a function."""
        n, _, v = f.df.rpartition("::")
        n = {"Some": "std::option::Option", "Ok": "std::result::Result", "Err": "std::result::Result"}.get(v, n) \
            if n.startswith(("std::prelude", "core::prelude")) else n
        for ty, name in ((n, v), (f.df, v)):
            for i, x in enumerate(self.p.adts.get(ty, {}).get("variants", ())):
                if x["name"] == name:
                    return ty, i
        return None

    def unknown_call(self, st, f, args):
        st = st.copy()
        st.note("unmodelled: " + f.df)
        sig_ret = None
        t = ("app", f.df, tuple(st.res(self.snapshot(st, a)) for a in args))
        for a in args:
            if is_ref(a):
                pass
        return [Res("ret", st, ("opq", t, -1))]

    def snapshot(self, st, v, depth=0):
        """Replace references by the values they point to (for use inside terms)."""
        if depth > 12:
            return ("...",)
        if is_ref(v):
            try:
                return ("&", self.snapshot(st, self.load(st, v[1], v[2]), depth + 1))
            except Bail:
                return ("&", "?")
        if isinstance(v, tuple) and v and v[0] == "box":
            return ("&", self.snapshot(st, self.load(st, v[1], ()), depth + 1))
        if isinstance(v, tuple) and not isinstance(v, V):
            return tuple(self.snapshot(st, x, depth + 1) if isinstance(x, tuple) else x for x in v)
        return v

    def run(self, st, f, args):
        self.stack.append(f.id)
        self.visited.add(f.id)
        d = len(self.stack)
        try:
            b = f.body
            an = self.info(f)
            self.bases[d] = st.nalloc
            for i, a in enumerate(args):
                st.mem[("L", d, i + 1)] = a
            out = []
            for kind, s, v in self.explore(f, d, [(st, 0)], None):
                for a in [a for a in s.mem if (a[0] == "L" and a[1] >= d)]:
                    del s.mem[a]
                if kind == "ret":
                    out.append((s, v))
                else:
                    out.append((s, ("!panic", v)))
            out = self.join(out)
            return [Res("panic", s, v[1]) if isinstance(v, tuple) and v and v[0] == "!panic" else Res("ret", s, v)
                    for s, v in out]
        finally:
            self.stack.pop()

    def explore(self, f, d, init, loop):
        """Run from the given (state, block) pairs.  With loop=(head, blocks): stop at the head
        ('head') and when leaving the blocks ('exit').  -> [(kind, st, val)]"""
        an = self.info(f)
        pend = {}
        for st, bb in init:
            pend.setdefault(bb, []).append(st)
        outs = []
        first = True
        while pend:
            bb = min(pend, key=lambda q: an.rpo[q])
            states = pend.pop(bb)
            live = an.live_in[bb]
            for st in states:
                for a in [a for a in st.mem if a[0] == "L" and a[1] == d and a[2] not in live
                          and a[2] not in an.addr_taken]:
                    del st.mem[a]
            if len(states) > 1:
                states = [s for s, _ in self.join([(s, None) for s in states])]
            if loop is not None and not (first and bb == loop[0]):
                if bb == loop[0]:
                    outs += [("head", s, None) for s in states]
                    continue
                if bb not in loop[1]:
                    outs += [("exit", s, bb) for s in states]
                    continue
            if bb in an.loops and (loop is None or bb != loop[0]):
                first = False
                for st in states:
                    for kind, s, v in self.run_loop(f, d, st, bb):
                        if kind == "exit":
                            pend.setdefault(v, []).append(s)
                        else:
                            outs.append((kind, s, v))
                continue
            first = False
            for st in states:
                for kind, s, v in self.block(f, d, st, bb):
                    if kind == "goto":
                        pend.setdefault(v, []).append(s)
                    else:
                        outs.append((kind, s, v))
        return outs

    def block(self, f, d, st, bb):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Bail("step budget exhausted")
        bl = f.body["blocks"][bb]
        cur = [st]
        for s in bl["s"]:
            nxt = []
            for t in cur:
                if s[0] == "=":
                    for u, v in self.rvalue(t, d, s[2]):
                        self.kill_moves(u, d, s[2])
                        a, p = self.place_for_store(u, d, s[1])
                        self.store(u, a, p, v)
                        nxt.append(u)
                elif s[0] == "dead":
                    t.mem.pop(("L", d, s[1]), None)
                    nxt.append(t)
                elif s[0] == "sd":
                    raise Bail("set discriminant")
                else:
                    raise Bail("statement " + s[0])
            cur = nxt
        outs = []
        for t in cur:
            outs += self.terminator(f, d, t, bl["t"], bb)
        return outs

    def kill_moves(self, st, d, r):
        ops = []
        if r[0] == "use":
            ops = [r[1]]
        elif r[0] == "agg":
            ops = r[2]
        for o in ops:
            if o.get("mv") and not o["p"][1]:
                st.mem.pop(("L", d, o["p"][0]), None)

    def place_for_store(self, st, d, pl):
        if not pl[1]:
            return ("L", d, pl[0]), ()
        a = ("L", d, pl[0])
        if a not in st.mem and pl[1][0][0] == "f":
            # a tuple made field by field
            t = self.p.ty(self.p.fns[self.stack[-1]].body["locals"][pl[0]])
            if t["k"] == "tuple":
                st.mem[a] = ("tup", (None,) * len(t["es"]))
        return self.place(st, d, pl)

    def terminator(self, f, d, st, t, bb):
        k = t[0]
        if k == "goto":
            return [("goto", st, t[1])]
        if k == "return":
            return [("ret", st, st.mem.get(("L", d, 0), UNIT))]
        if k == "drop":
            return [("goto", st, t[2])]
        if k == "unreachable":
            return []
        if k in ("resume", "abort"):
            return [("panic", st, k)]
        if k == "assert":
            out = []
            for s, b in self.truth(st, self.operand(st, d, t[1])):
                if b == t[2]:
                    out.append(("goto", s, t[4]))
                else:
                    out.append(("panic", s, (t[3], f.name, f.body["blocks"][bb]["l"])))
            return out
        if k == "switch":
            v = st.res(self.operand(st, d, t[1]))
            return [("goto", s, b) for s, b in self.switch(st, v, t[2], t[3])]
        if k == "call":
            fv = self.operand(st, d, t[1])
            args = [self.operand(st, d, o) for o in t[2]]
            for o in t[2]:
                if o.get("mv") and not o["p"][1]:
                    st.mem.pop(("L", d, o["p"][0]), None)
            if isinstance(fv, tuple) and fv[0] == "fn":
                rs = self.call(st, fv[1], args, t[5])
            else:
                rs = self.call_value(st, fv, args)
            out = []
            for r in rs:
                if r.kind == "panic":
                    v = r.val
                    if not (isinstance(v, tuple) and len(v) == 3):
                        v = (v, f.name, f.body["blocks"][bb]["l"])
                    elif self.p.fns[self.stack[-1]].crate.startswith(("rdftk", "roots")) and v[1] is None:
                        v = (v[0], f.name, f.body["blocks"][bb]["l"])
                    out.append(("panic", r.st, v))
                    continue
                if t[4] < 0:
                    continue
                s = r.st
                v = r.val
                if is_opq(v) and v[2] == -1:
                    # give the result its static type
                    if not t[3][1]:
                        ty = f.body["locals"][t[3][0]]
                        v = self.retype(s, v, ty)
                a, p = self.place_for_store(s, d, t[3])
                self.store(s, a, p, v)
                out.append(("goto", s, t[4]))
            return out
        raise Bail("terminator " + k)

    def retype(self, st, v, ty):
        t = self.p.ty(ty)
        if t["k"] in ("bool", "char", "int", "uint", "str", "ref", "tuple", "adt"):
            return self.mk_sym(st, ty, repr(v[1]))
        return ("opq", v[1], ty)

    def switch(self, st, v, branches, other):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for k, b in branches:
                if k == v or (v < 0 and (k == v + 2 ** 64 or k == v + 2 ** 128 or k == v + 2 ** 8 or k == v + 2 ** 32)):
                    return [(st, b)]
            return [(st, other)]
        if isinstance(v, tuple) and v[0] == "sbool":
            out = []
            for s, x in self.truth(st, v):
                out += self.switch(s, x, branches, other)
            return out
        if isinstance(v, tuple) and v[0] == "char":
            out, cur = [], [st]
            for k, b in branches:
                nxt = []
                for s in cur:
                    for u, eq in self.char_cmp(s, self.seg1(s, v[1]), "Eq", k) if not 0xD800 <= k <= 0xDFFF else [(s, False)]:
                        if eq:
                            out.append((u, b))
                        else:
                            nxt.append(u)
                cur = nxt
            return out + [(s, other) for s in cur]
        if isinstance(v, tuple) and v[0] in ("lin", "sint", "atl"):
            out, cur = [], [st]
            for k, b in branches:
                nxt = []
                for s in cur:
                    for u, eq in self.binop(s, "Eq", v, k):
                        for w, e in self.truth(u, eq):
                            if e:
                                out.append((w, b))
                            else:
                                nxt.append(w)
                cur = nxt
            return out + [(s, other) for s in cur]
        if is_opq(v):
            return self.switch(st, ("sint", v[1]), branches, other)
        raise Bail("switch on %r" % (v,))

    # ---------------------------------------------------------------- loops
    @staticmethod
    def collect(st, base):
        """Drop the unreachable temporaries among those allocated since the frame was entered, and number the rest
        in the order in which they are reached."""
        young = {a for a in st.mem if a[0] == "K" and a[1] > base}
        if not young:
            return
        order = {}

        def scan(v):
            if not isinstance(v, tuple) or isinstance(v, (V, R.CharSet)):
                return
            if len(v) == 3 and v[0] == "ref" and v[1] in young and v[1] not in order:
                order[v[1]] = ("K", base + 1 + len(order))
                scan(st.mem[v[1]])
            for x in v:
                if isinstance(x, tuple):
                    scan(x)
        for a in sorted((a for a in st.mem if a not in young), key=repr):
            scan(st.mem[a])
        for k in st.facts:
            scan(k)

        def go(v):
            if not isinstance(v, tuple) or isinstance(v, (V, R.CharSet)):
                return v
            if v in order:
                return order[v]
            return tuple(go(x) if isinstance(x, tuple) else x for x in v)
        if all(k == v for k, v in order.items()):
            for a in young - set(order):
                del st.mem[a]
            return
        st.facts = {go(k): v for k, v in st.facts.items()}
        st.mem = {order.get(a, a): (go(v) if v is not UNINIT else v) for a, v in st.mem.items() if a not in young or a in order}

    def canon(self, f, d, st, head):
        """Fold consumed runs of the segment decomposition.  Returns (st', runs) where runs maps the
        canonical name of each folded/renamed leaf to (list of old leaf segs, referenced?)."""
        an = self.info(f)
        tag = "@%d.%d." % (d, head)
        st = st.copy()
        live = an.live_in[head]
        for a in [a for a in st.mem if a[0] == "L" and (a[1] > d or (a[1] == d and a[2] not in live
                                                                     and a[2] not in an.addr_taken))]:
            del st.mem[a]
        self.collect(st, self.bases.get(d, 0))
        roots = [n for n in st.subst if "^" not in n and "@" not in n]
        rootvals = {n: st.resolve((V(n),)) for n in roots}
        rootset = {v: n for n, v in rootvals.items()}
        # live values; whole-root strings are kept as root references
        def keep(segs):
            r = st.resolve(segs)
            if segs and len(segs) == 1 and isinstance(segs[0], V) and segs[0].n in rootvals:
                return (V("=" + segs[0].n),)
            return r
        vals = []
        for a, v in st.mem.items():
            if v is UNINIT or a[0] == "C":
                continue
            vals.append(walk_segs(v, keep))
        for k in st.facts:
            vals.append(walk_segs(k, keep))
        # occurrences
        occ = {}     # var -> list of (prev, next) neighbours ; None if unusable (Lin with differing coef)
        linoc = []

        def scan(v):
            if not isinstance(v, tuple) or not v:
                return
            if isinstance(v, V):
                occ.setdefault(v.n, []).append((None, None))
                return
            if len(v) == 3 and v[0] == "lin":
                linoc.append(self.ext_lin(st, rootvals, v)[1])
                return
            # segment tuples: tuples made of str/V only, containing at least one V
            if any(isinstance(x, V) for x in v) and all(isinstance(x, (str, V)) for x in v) and v[0] != "char":
                for i, x in enumerate(v):
                    if isinstance(x, V):
                        occ.setdefault(x.n, []).append((v[i - 1] if i else None, v[i + 1] if i + 1 < len(v) else None))
                return
            if v[0] == "char" and len(v) == 2 and isinstance(v[1], V):
                occ.setdefault(v[1].n, []).append((None, None))
                return
            for x in v:
                if isinstance(x, tuple):
                    scan(x)
        for v in vals:
            scan(v)
        linvars = set()
        for o in linoc:
            linvars |= set(o)
        newsub = {}
        runs = {}
        rename = {}      # old leaf var name -> (canonical name, offset) for referenced
        repl = []        # list of (run tuple, canonical name)
        # leaves shared between roots (through equalities) block folding
        count = {}
        for n, leafs in rootvals.items():
            for x in leafs:
                if isinstance(x, V):
                    count[x.n] = count.get(x.n, 0) + 1
        # what an enclosing loop made of a value keeps its name; the pieces it was cut into since then do not
        outer = lambda y: isinstance(y, V) and "@" in y.n and tag not in y.n and "^" not in y.n.rsplit("@", 1)[1]
        for n, leafs in rootvals.items():
            out = []
            for x in leafs:
                if out and not outer(x) and not any(outer(y) for y in out[-1]):
                    run = out[-1]
                    if self.foldable(run, x, occ, linoc, linvars, count):
                        run.append(x)
                        continue
                out.append([x])
            segs = []
            for i, run in enumerate(out):
                if len(out) == 1 and len(run) == 1 and isinstance(run[0], str):
                    segs.append(run[0])     # the whole root is a constant
                    continue
                nm = "%s%s%d" % (n, tag, i)
                if len(run) == 1 and outer(run[0]):
                    nm = run[0].n       # accumulator of an enclosing loop
                refd = any(isinstance(x, V) and (x.n in occ or x.n in linvars) for x in run)
                runs[nm] = (tuple(run), refd)
                repl.append((tuple(run), nm))
                segs.append(V(nm))
            newsub[n] = tuple(segs)
        return st, runs, repl, newsub, rootvals

    @staticmethod
    def ext_lin(st, rootvals, v):
        """A length, with constants that are the lengths of leaves next to leaves it mentions written as such."""
        c, t = lin_parts(st.res(v))
        t = dict(t)
        if c <= 0 or not t:
            return c, t
        for leafs in rootvals.values():
            if not any(isinstance(x, V) and t.get(x.n) == 1 for x in leafs):
                continue
            for order in (leafs, leafs[::-1]):
                on = False
                for x in order:
                    if not isinstance(x, V):
                        on = False
                        continue
                    if t.get(x.n) == 1:
                        on = True
                    elif on and x.n not in t:
                        k = R.fixed_bytelen(st.lang[x.n])
                        on = k is not None and 0 < k <= c
                        if on:
                            c -= k
                            t[x.n] = 1
                    else:
                        on = False
        return c, t

    @staticmethod
    def foldable(run, x, occ, linoc, linvars, count):
        last = run[-1]

        def free(s):
            return isinstance(s, str) or (s.n not in occ and s.n not in linvars and count.get(s.n, 0) <= 1)
        if all(free(s) for s in run) and free(x):
            return True
        # referenced: every occurrence must be of the whole (adjacent) pair
        if not isinstance(last, V) or not isinstance(x, V):
            return False
        if count.get(last.n, 0) > 1 or count.get(x.n, 0) > 1:
            return False
        for p, nx in occ.get(last.n, []):
            if nx != x:
                return False
        for p, nx in occ.get(x.n, []):
            if p != last:
                return False
        for o in linoc:
            if o.get(last.n, 0) != o.get(x.n, 0):
                return False
        return last.n in occ or last.n in linvars

    def apply_canon(self, f, d, st, head):
        st, runs, repl, newsub, rootvals = self.canon(f, d, st, head)
        langs = {}
        for nm, (run, refd) in runs.items():
            langs[nm] = R.concat_all([st.seglang(s) for s in run])
        single = {run[0].n: nm for run, nm in repl if len(run) == 1 and isinstance(run[0], V)}
        multi = [(run, nm) for run, nm in repl if len(run) > 1]
        unref = {nm for nm, (run, refd) in runs.items() if not refd}

        def f_(segs):
            if len(segs) == 1 and isinstance(segs[0], V) and segs[0].n in rootvals:
                return segs
            r = list(st.resolve(segs))
            i = 0
            out = []
            while i < len(r):
                x = r[i]
                if isinstance(x, V):
                    done = False
                    for run, nm in multi:
                        if tuple(r[i:i + len(run)]) == run:
                            out.append(V(nm))
                            i += len(run)
                            done = True
                            break
                    if done:
                        continue
                    if x.n in single:
                        out.append(V(single[x.n]))
                        i += 1
                        continue
                out.append(x)
                i += 1
            return tuple(out)

        def lin_fix(v):
            if not isinstance(v, tuple) or isinstance(v, (V, R.CharSet)):
                return v
            if len(v) == 3 and v[0] == "lin":
                c, t = self.ext_lin(st, rootvals, v)
                if not t:
                    return c
                new = {}
                for run, nm in multi:
                    vs = [x.n for x in run if isinstance(x, V)]
                    if vs and vs[0] in t:
                        k = t[vs[0]]
                        for x in vs:
                            t.pop(x, None)
                        for x in run:
                            if isinstance(x, str):
                                c -= k * len(x.encode("utf-8"))
                        new[nm] = new.get(nm, 0) + k
                for o, k in t.items():
                    nm = single.get(o, o)
                    new[nm] = new.get(nm, 0) + k
                return ("LIN", c, tuple(new.items()))
            return tuple(lin_fix(x) if isinstance(x, tuple) else x for x in v)

        def unlin(v):
            if not isinstance(v, tuple) or isinstance(v, (V, R.CharSet)):
                return v
            if len(v) == 3 and v[0] == "LIN":
                return lin(v[1], v[2])
            return tuple(unlin(x) if isinstance(x, tuple) else x for x in v)

        def conv(v):
            return unlin(walk_segs(lin_fix(v), lambda s: f_(s)))

        ns = st.copy()
        ns.mem = {a: (conv(v) if v is not UNINIT else v) for a, v in st.mem.items()}
        ns.facts = {conv(k): v for k, v in st.facts.items()}
        ns.subst = dict(newsub)
        used = {x.n for v in rootvals.values() for x in v if isinstance(x, V)}
        ns.lang = {n: l for n, l in st.lang.items() if n not in used}
        ns.lang.update(langs)
        return ns, runs, unref

    def struct_key(self, ns):
        mem = tuple(sorted(((a, v) for a, v in ns.mem.items() if v is not UNINIT and a[0] != "C"), key=lambda kv: repr(kv[0])))
        return (mem, frozenset(ns.facts.items()), tuple(sorted(ns.subst.items())), ns.notes)

    def map_iterators(self, st):
        """The iterators over the told-apart entries of a map."""
        out = []

        def scan(a, v):
            if isinstance(v, tuple) and v and not isinstance(v, V):
                if v[:2] == ("obj", "mapents") or v[:2] == ("obj", "mapiter"):
                    out.append((a, v[1:]))
                    return
                for x in v:
                    if isinstance(x, tuple):
                        scan(a, x)
        for a, v in st.mem.items():
            scan(a, v)
        return out

    def few_entries(self, f, d, st0, head, blocks):
        """A loop over the entries of a map with few of them: iteration by iteration."""
        at = self.map_iterators(st0)
        if not at:
            return None
        cur, out = [st0.copy()], []
        for n in range(9):
            nxt = []
            for st in cur:
                for kind, s, v in self.explore(f, d, [(st, head)], (head, blocks)):
                    if kind == "head":
                        nxt.append(s)
                    else:
                        out.append((kind, s, v))
            if not nxt:
                return self.join_kinds(out)
            if n == 0 and any(self.map_iterators(s) == at for s in nxt):
                return None
            cur = [s for s, _ in self.join([(s, None) for s in nxt])]
        return None

    def run_loop(self, f, d, st0, head):
        an = self.info(f)
        blocks = an.loops[head]
        widen_int = False
        if self.map_iters and not self.rep_maps:
            r = self.few_entries(f, d, st0, head, blocks)
            if r is not None:
                return r
        accs = set()
        for attempt in range(6):
            r = self.try_loop(f, d, st0.copy(), head, blocks, accs, widen_int)
            if isinstance(r, list):
                return r
            if r[0] == "acc":
                accs |= r[1]
            elif r[0] == "int":
                if widen_int:
                    break
                widen_int = True
        r = self.rep_loop(f, d, st0, head, blocks)
        if r is None and widen_int and not self.counting:
            # perhaps it counts to a limit
            self.counting = True
            try:
                r = self.try_loop(f, d, st0.copy(), head, blocks, set(), False)
            except Bail:
                r = None
            finally:
                self.counting = False
            if not isinstance(r, list):
                r = None
        if r is None:
            raise Bail("loop in %s does not stabilise" % f.name)
        return r

    def rep_loop(self, f, d, st0, head, blocks):
        """A loop that appends to buffers: find what one iteration appends and replace the
        accumulated text by a repetition of it."""
        LOOPDEPTH[0] += 1
        try:
            entry, _, _ = self.apply_canon(f, d, st0.copy(), head)
            bufs = {a: v[1] for a, v in entry.mem.items() if is_str(v) and a[0] != "K"}
            deltas = {}
            for kind, s, v in self.explore(f, d, [(entry.copy(), head)], (head, blocks)):
                if kind != "head":
                    continue
                for a, base in bufs.items():
                    x = s.mem.get(a)
                    if not is_str(x):
                        continue
                    dl = seg_suffix(s.resolve(base), s.resolve(x[1]))
                    if dl is None:
                        return None
                    deltas.setdefault(a, {})[dl] = R.concat_all([s.seglang(y) for y in dl])
        finally:
            LOOPDEPTH[0] -= 1
        deltas = {a: m for a, m in deltas.items() if any(m)}
        if not deltas:
            return None
        st = st0.copy()
        for a, m in deltas.items():
            names = tuple(sorted(m, key=repr))
            nm = "rep%r" % (names,)
            self.reps[nm] = names
            l = R.EMPTY
            for x in m.values():
                l = R.union(l, x)
            if nm not in st.lang and nm not in st.subst:
                st.newvar(nm, R.star(l))
            st.mem[a] = mkstr(st.resolve(st.mem[a][1]) + (V(nm),))
        r = self.try_loop(f, d, st, head, blocks, set(), False)
        return r if isinstance(r, list) else None

    def fold_reps(self, st):
        """V(rep d) followed by d is V(rep d)."""
        for a, v in list(st.mem.items()):
            if not is_str(v) or not any(isinstance(x, V) and x.n in self.reps for x in v[1]):
                continue
            segs = st.resolve(v[1])
            i = max(k for k, x in enumerate(segs) if isinstance(x, V) and x.n in self.reps)
            if segs[i + 1:] in self.reps[segs[i].n]:
                st.mem[a] = mkstr(segs[:i + 1])

    def widen_ints(self, st, d, entry):
        for a in list(st.mem):
            if a[0] == "C":
                continue
            v, e = st.mem[a], entry.mem.get(a)

            def go(x, y):
                if isinstance(x, int) and not isinstance(x, bool):
                    if x != y and x >= 4:
                        return ("atl", 4)
                    return x
                if isinstance(x, tuple) and not isinstance(x, V) and x and x[0] in ("adt", "tup", "clo") :
                    z = y if isinstance(y, tuple) and len(y) == len(x) else (None,) * len(x)
                    return tuple(go(p, q) if i >= 1 and isinstance(p, (tuple,)) else p for i, (p, q) in enumerate(zip(x, z))) \
                        if x[0] != "adt" else ("adt", x[1], x[2], tuple(
                            go(p, q) for p, q in zip(x[3], z[3] if isinstance(z[3], tuple) and len(z[3]) == len(x[3]) else (None,) * len(x[3]))))
                return x
            st.mem[a] = go(v, e)

    def try_loop(self, f, d, st0, head, blocks, accs, widen_int):
        LOOPDEPTH[0] += 1
        try:
            r = self.summarise(f, d, st0, head, blocks, accs, widen_int)
        finally:
            LOOPDEPTH[0] -= 1
        if isinstance(r, list):
            if not LOOPDEPTH[0]:
                for _, s, _v in r:
                    for n in list(s.lang):
                        s.restrict(V(n), s.lang[n])
            r = self.join_kinds(r)
        return r

    def summarise(self, f, d, st0, head, blocks, accs, widen_int):
        entry, runs, unref = self.apply_canon(f, d, st0, head)
        nodes = []           # (state, accs)
        index = {}
        edges = {}           # acc name -> [(u, Lang, v)]
        starts = {}          # acc name -> [(node, Lang)]
        bystruct = {}
        exits = []

        def noints(v):
            if isinstance(v, tuple) and not isinstance(v, (V, R.CharSet)):
                if v[:1] == ("atl",):
                    return "#"
                return tuple(noints(x) for x in v)
            return "#" if isinstance(v, int) and not isinstance(v, bool) else v

        def isacc(nm, unref_, sk):
            return nm in unref_ or any(n == nm for _, n in accs) and (noints(sk[0]), nm) in accs

        def add(ns, unref_):
            sk = self.struct_key(ns)
            av = frozenset(nm for nm in ns.lang if isacc(nm, unref_, sk))
            cls = {n: R.NONEMPTY if not l.acc[0] else R.ANY for n, l in ns.lang.items() if n in av}
            lk = frozenset((n, cls.get(n, l)) for n, l in ns.lang.items())
            k = (sk, av, lk)
            if k in index:
                return index[k], False, av
            i = len(nodes)
            index[k] = i
            s = ns.copy()
            s.lang.update(cls)
            nodes.append((s, av))
            bystruct.setdefault((sk, av), []).append(i)
            return i, True, av

        n0, _, av = add(entry, unref)
        for n in av:
            starts.setdefault(n, []).append((n0, entry.lang[n]))
        work = [n0]
        while work:
            u = work.pop(0)
            st, uav = nodes[u]
            if len(nodes) > 150:
                return ("int",)
            for kind, s, v in self.explore(f, d, [(st.copy(), head)], (head, blocks)):
                if kind != "head":
                    exits.append((u, kind, s, v))
                    continue
                if widen_int:
                    self.widen_ints(s, d, entry)
                if self.reps:
                    self.fold_reps(s)
                ns, runs, unref_ = self.apply_canon(f, d, s, head)
                # which accumulators of u were inspected?
                leaves = {x.n for run, _ in runs.values() for x in run if isinstance(x, V)}
                for n in uav:
                    if n in s.subst or s.lang.get(n) != st.lang[n] or n not in leaves:
                        ns.note("loop accumulator inspected")
                for n, (run, _) in runs.items():
                    if n not in unref_ and any(isinstance(x, V) and x.n in uav for x in run) and \
                            not isacc(n, unref_, self.struct_key(ns)):
                        ns.note("loop accumulator referenced in " + f.name[:80])
                w, new, wav = add(ns, unref_)
                for n in wav:
                    run = runs[n][0] if n in runs else (V(n),)
                    if run and isinstance(run[0], V) and run[0].n in uav:
                        edges.setdefault(n, []).append((u, run[0].n, R.concat_all([ns_seg(s, x) for x in run[1:]]), w, "app"))
                    elif run and isinstance(run[-1], V) and run[-1].n in uav:
                        edges.setdefault(n, []).append((u, run[-1].n, R.concat_all([ns_seg(s, x) for x in run[:-1]]), w, "pre"))
                    elif any(isinstance(x, V) and x.n in uav for x in run):
                        ns.note("loop accumulator in the middle of a run")
                        nodes[w][0].note("loop accumulator in the middle of a run")
                        starts.setdefault(n, []).append((w, R.ANY))
                    else:
                        starts.setdefault(n, []).append((w, R.concat_all([ns_seg(s, x) for x in run]))
                                                        if u == n0 or not uav or True else None)
                if new:
                    work.append(w)
                    if not widen_int and not self.counting and len({sk for sk, _ in bystruct}) > 12 * len({noints(sk[0]) for sk, _ in bystruct}):
                        return ("int",)
                    for (sk, av2), ids in bystruct.items():
                        if len(ids) >= 4:
                            # languages of which variables keep changing?
                            names = set(nodes[ids[0]][0].lang)
                            cand = {n for n in names if len({nodes[i][0].lang.get(n) for i in ids}) >= 4 and n not in av2}
                            if cand and len(ids) >= 6:
                                return ("acc", {(noints(sk[0]), n) for n in cand})
        # languages of accumulators at each node
        allacc = set(starts) | set(edges)
        growing = set()
        sol = {}
        N = len(nodes)
        # node ids: (acc name, node); accumulators may be renamed along edges, so build one automaton
        ids = {}

        def nid(n, i):
            return ids.setdefault((n, i), len(ids) + 1)
        es, pre = [], False
        for n, l in starts.items():
            for w, lang in l:
                es.append((0, lang, nid(n, w)))
        for n, l in edges.items():
            for u, un, lang, w, how in l:
                if how == "pre" and lang != R.EPS:
                    pre = True
                es.append((nid(un, u), lang, nid(n, w)))
                if lang != R.EPS:
                    growing.add(n)
        if pre:
            app = any(how == "app" and lang != R.EPS for l in edges.values() for _, _, lang, _, how in l)
            if app:
                multi = True
                for s, _ in nodes:
                    s.note("loop accumulates at both ends in " + f.name[:80])
            es = [(u, rev(l), v) for u, l, v in es]
        langs = R.automaton_langs(len(ids) + 1, 0, es) if ids else []
        if pre:
            langs = [rev(l) for l in langs]
        for (n, i), k in ids.items():
            sol[(n, i)] = langs[k]
        res = []
        for u, kind, s, v in exits:
            st, uav = nodes[u]
            s = s.copy()
            s.notes = s.notes | st.notes
            dead = False
            for n in uav:
                l = sol.get((n, u), R.EMPTY)
                if n in s.subst:
                    s.note("loop accumulator inspected")
                    # re-establish the language on the decomposition
                    keep = [t for t, b in split_by_dfa(s, (V(n),), l) if b]
                    if len(keep) == 1:
                        s = keep[0]
                        s.notes = s.notes - {"loop accumulator inspected"}
                    elif not keep:
                        dead = True
                else:
                    l2 = R.inter(l, s.lang.get(n, R.ANY))
                    if l2 == R.EMPTY:
                        dead = True
                        break
                    s.restrict(V(n), l2)
            if dead:
                continue
            # make names unique to this loop instance so that later loops may reuse the head
            res.append((kind, self.fresh_names(s, nodes, head, d), v))
        return res

    def join_kinds(self, res):
        out = []
        groups = {}
        for kind, s, v in res:
            groups.setdefault((kind, repr(v) if kind != "exit" else v), []).append((s, v))
        for (kind, _), l in groups.items():
            if kind == "ret":
                out += [(kind, s, v) for s, v in self.join(l)]
            else:
                out += [(kind, s, l[0][1]) for s, _ in self.join([(s, None) for s, v in l])]
        return out

    def fresh_names(self, s, nodes, head, d):
        """Rename '@' variables to '^' style names so that they are ordinary decomposition leaves."""
        ren = {}
        tag = "@%d.%d." % (d, head)
        for n in list(s.lang) + list(s.subst):
            if tag in n:
                ren[n] = n.replace("@", "^L")
        if not ren:
            return s

        # avoid clashes with existing names from an earlier run of the same loop
        exist = set(s.lang) | set(s.subst)
        for n in ren:
            m = ren[n]
            k = 0
            base = m
            while m in exist:
                k += 1
                m = base + "'" * k
            ren[n] = m

        def rn(x):
            return V(ren[x.n]) if isinstance(x, V) and x.n in ren else x

        def f_(segs):
            return tuple(rn(x) for x in segs)
        s.mem = {a: (walk_segs(v, f_) if isinstance(v, tuple) else v) for a, v in s.mem.items()}
        s.facts = {walk_segs(k, f_): v for k, v in s.facts.items()}
        s.subst = {ren.get(k, k): f_(v) for k, v in s.subst.items()}
        s.lang = {ren.get(k, k): v for k, v in s.lang.items()}
        return s


def seg_suffix(base, segs):
    """segs minus its prefix base, or None."""
    b, s = list(base), list(segs)
    while b:
        if not s:
            return None
        if b[0] == s[0]:
            b.pop(0), s.pop(0)
        elif isinstance(b[0], str) and isinstance(s[0], str) and s[0].startswith(b[0]):
            s[0] = s[0][len(b.pop(0)):]
        else:
            return None
    return tuple(x for x in s if x != "")


def ns_seg(st, x):
    return R.concat_all([st.seglang(y) for y in st.resolve((x,))])


def rev(l):
    n = len(l.trans)
    edges = [[] for _ in range(n + 1)]
    for i, r in enumerate(l.trans):
        for a, b, t in r:
            edges[t].append((a, b, i))
    eps = [[] for _ in range(n + 1)]
    eps[n] = [i for i, x in enumerate(l.acc) if x]
    return R._det(n, edges, eps, {0})
