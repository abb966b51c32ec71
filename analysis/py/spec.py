"""Comparison of what a function computes with what its specification says, path by path.

A specification is a Python function `spec(c, st)`; it is given one abstract state at the exit of the
analysed function and returns [(state, expected)], splitting the state further with the same
primitives the interpreter uses.  `expected` is compared structurally with the value the analysed
code returned.  A definite difference is a violation; a difference on a path on which the analysis
had to approximate is counted as undecided.
"""
import relang as R
from absint import (NONE, OPTION, RESULT, UNIT, Bail, Interp, State, V, adt, err, find_char, is_adt, is_opq, is_ref,
                    is_str, lin_parts, mkstr, ok, rfind_char, some, split_by_dfa, split_first)
import models
from models import url_get, url_norm, url_ser, url_set

ANY = ("any",)            # nothing is specified here
PANIC = ("panics",)       # a panic is what is specified


class Pred:
    """An expected value given by a predicate: f(c, st, got) -> [(st, bool)]"""
    def __init__(self, f, what):
        self.f, self.what = f, what


# ------------------------------------------------------------------------------------ grammar
# character classes of the SPARQL 1.1 grammar, productions [164]-[168]
PN_CHARS_BASE = R.CharSet.of([(0x41, 0x5A), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D),
                              (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF),
                              (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF)])
PN_CHARS_U = PN_CHARS_BASE.union(R.CharSet.chars("_"))
DIGIT = R.CharSet.of([(0x30, 0x39)])
PN_CHARS = PN_CHARS_U.union(DIGIT).union(R.CharSet.chars("-\u00B7")).union(R.CharSet.of([(0x300, 0x36F), (0x203F, 0x2040)]))
TAIL = R.union(R.EPS, R.concat(R.star(R.cset(PN_CHARS.union(R.CharSet.chars(".")))), R.cset(PN_CHARS)))
PREFIX = R.concat(R.cset(PN_CHARS_BASE), TAIL)
NAMESPACE = R.concat(R.union(R.EPS, PREFIX), R.lit(":"))
NAME = R.concat(R.cset(PN_CHARS_U.union(DIGIT)), TAIL)
COLON = R.CharSet.chars(":")
HAS_COLON = R.contains_lang(R.lit(":"))
ENDS_COLON = R.ends_with(R.lit(":"))
ASCII = R.star(R.cset(R.CharSet.of([(0, 0x7F)])))


def contains_special(v):
    """Does an expected value contain a predicate or an unspecified part?"""
    if isinstance(v, Pred) or v == ANY:
        return True
    return isinstance(v, tuple) and any(contains_special(x) for x in v if isinstance(x, (tuple, Pred)))


class Ctx:
    def __init__(self, interp, args):
        self.I = interp
        self.args = args
        self.init = []

    def s(self, st, i):
        """Segments of the i-th argument, a text."""
        return models.S(self.I, st, self.args[i])

    def u(self, st, i):
        return models.get_url(self.I, st, self.args[i])

    def cases(self, st, segs, table, default):
        """First-match case distinction on the language of a text."""
        out = []
        cur = [st]
        for l, v in table:
            nxt = []
            for t in cur:
                for w, b in split_by_dfa(t, tuple(segs), l):
                    if b:
                        out += self.lift(w, v)
                    else:
                        nxt.append(w)
            cur = nxt
        for t in cur:
            out += self.lift(t, default)
        return out

    def lift(self, st, v):
        if callable(v) and not isinstance(v, Pred):
            return v(st)
        return [(st, v)]

    def then(self, rs, f):
        out = []
        for st, v in rs:
            out += f(st, v)
        return out

    # -------------------------------------------------------------- comparison
    def same(self, st, got, exp):
        """[(st, bool)]"""
        I = self.I
        if exp is ANY or exp == ANY:
            return [(st, True)]
        if isinstance(exp, Pred):
            return exp.f(self, st, got)
        if getattr(I, "same_values", None) and not contains_special(exp):
            return I.same_values(I, st, got, exp)
        got = I.deref_all(st, got)
        if isinstance(got, tuple) and got and got[0] == "box":
            got = I.load(st, got[1], ())
            got = I.deref_all(st, got)
        exp = I.deref_all(st, exp)
        if isinstance(exp, bool) or (isinstance(exp, tuple) and exp and exp[0] == "sbool"):
            out = []
            for t, b in I.truth(st, got):
                for w, e in I.truth(t, exp):
                    out.append((w, b == e))
            return out
        if isinstance(exp, int) or (isinstance(exp, tuple) and exp and exp[0] in ("lin", "sint")):
            if isinstance(got, tuple) and got[0] == "sint" and isinstance(got[1], tuple) and got[1][0] == "maplen":
                got = models.map_len(st, got[1][1])
            if st.res(got) == st.res(exp):
                return [(st, True)]
            out = []
            for t, v in I.binop(st, "Eq", got, exp):
                out += I.truth(t, v)
            return out
        if is_str(exp):
            if is_adt(got) and len(got[3]) == 1 and is_str(got[3][0]):
                got = got[3][0]
            if is_adt(got) and got[1].endswith("Cow"):
                got = I.deref_all(st, got[3][0])
            if is_str(got):
                return I.str_eq(st, got[1], exp[1])
            raise Bail("text expected, got %r" % (str(got)[:80],))
        if isinstance(exp, tuple) and exp and exp[0] == "url":
            if is_adt(got) and len(got[3]) == 1:
                got = I.deref_all(st, got[3][0])
            if not (isinstance(got, tuple) and got and got[0] == "url"):
                raise Bail("URL expected")
            return self.same_url(st, got, exp)
        if isinstance(exp, tuple) and exp and exp[0] == "tup":
            if not (isinstance(got, tuple) and got[0] == "tup" and len(got[1]) == len(exp[1])):
                raise Bail("tuple expected, got %r" % (str(got)[:80],))
            return self.all_same(st, got[1], exp[1])
        if is_adt(exp):
            out = []
            for t, g in (I.force(st, got) if is_opq(got) else [(st, got)]):
                if not is_adt(g):
                    raise Bail("%s expected, got %r" % (exp[1], str(g)[:80]))
                if g[2] != exp[2]:
                    out.append((t, False))
                elif len(g[3]) != len(exp[3]):
                    raise Bail("shape of %s" % exp[1])
                else:
                    out += self.all_same(t, g[3], exp[3])
            return out
        if isinstance(exp, tuple) and exp and exp[0] == "bimap":
            return self.same_map(st, got, exp)
        if st.res(got) == st.res(exp):
            return [(st, True)]
        if is_opq(exp) or is_opq(got):
            g, e = st.res(I.snapshot(st, got)), st.res(I.snapshot(st, exp))
            if g == e or (is_opq(g) and is_opq(e) and g[1] == e[1]):
                return [(st, True)]
            t = st.copy()
            if not (is_opq(exp) and is_opq(got) and got[1][0] == exp[1][0] == "s"):
                t.note("comparison of opaque values")
            return [(t, False)]
        raise Bail("cannot compare %r with %r" % (str(got)[:80], str(exp)[:80]))

    def all_same(self, st, gs, es):
        cur = [(st, True)]
        for g, e in zip(gs, es):
            nxt = []
            for t, b in cur:
                if not b:
                    nxt.append((t, False))
                else:
                    nxt += self.same(t, g, e)
            cur = nxt
        return cur

    def same_url(self, st, g, e):
        I = self.I
        g, e = url_norm(I, st, g), url_norm(I, st, e)
        if g[1] != e[1]:
            if g[1].startswith("const:") and e[1].startswith("const:"):
                return [(st, False)] if not g[2] and not e[2] else self._note(st, "constant URLs")
            return models.url_eq(I, st, g, e)
        cur = [(st, True)]
        for comp in ("path", "query", "frag"):
            if comp not in dict(g[2]) and comp not in dict(e[2]):
                continue
            nxt = []
            for t, b in cur:
                if not b:
                    nxt.append((t, False))
                    continue
                for w, x in self.comp_raw(t, g, comp):
                    for y, z in self.comp_raw(w, e, comp):
                        nxt += self.same(y, x, z)
            cur = nxt
        return cur

    def _note(self, st, n):
        st = st.copy()
        st.note(n)
        return [(st, False)]

    def comp_raw(self, st, u, comp):
        """The text a component was set to, or its present value."""
        d = dict(u[2])
        if comp in d:
            return [(st, d[comp])]
        return url_get(self.I, st, ("url", u[1], ()), comp)

    def same_map(self, st, got, exp):
        I = self.I
        got = I.deref_all(st, got)
        if is_adt(got) and len(got[3]) == 1:
            got = I.deref_all(st, got[3][0])
        if not (isinstance(got, tuple) and got and got[0] == "bimap"):
            raise Bail("map expected")
        g, e = st.res(got), st.res(exp)
        if g == e:
            return [(st, True)]
        # extensional: look an arbitrary key up in both
        q = "?key"
        out = []
        t = st.copy()
        if q not in t.lang and q not in t.subst:
            t.newvar(q, NAMESPACE)
        k = adt("rdftk_iri::Namespace", 0, (mkstr((V(q),)),))
        mk = models.map_partner(I, True, None, None)
        for w, x in models.map_get(I, t, g[1], g[2], k, True, mk):
            for y, z in models.map_get(I, w, e[1], e[2], k, True, mk):
                if (x is None) != (z is None):
                    out.append((y, False))
                elif x is None:
                    out.append((y, True))
                else:
                    out += self.same(y, x, z) if not is_adt(z) else self.same_iri(y, x, z)
        return out

    def same_iri(self, st, x, z):
        return self.same_url(st, models.get_url(self.I, st, x), models.get_url(self.I, st, z))


class Outcome:
    def __init__(self):
        self.violations, self.undecided = [], []
        self.infeasible = 0          # paths that turned out to assume f(x) != f(y) for equal x and y
        self.discharged = self.paths = self.steps = 0
        self.functions, self.sites = set(), 0


def make_args(I, f, st):
    args = []
    for i in range(f.body["argc"]):
        ty = f.body["locals"][i + 1]
        t = I.p.ty(ty)
        if t["k"] == "ref" and I.p.ty(t["e"]).get("def", "").endswith("fmt::Formatter"):
            st.mem[("S", "out")] = mkstr(())
            st.mem[("S", "fm")] = ("obj", "fmt", ("S", "out"), ("opts", "sym", None, None, None))
            args.append(("ref", ("S", "fm"), ()))
        else:
            args.append(I.mk_sym(st, ty, "a%d" % i))
    return args


def witness(st, args, I):
    """A concrete instance of the abstract arguments, as far as the domain determines one."""
    out = []
    for i, a in enumerate(args):
        v = I.deref_all(st, a)
        out.append(show_input(st, v, I, i))
    return ", ".join(out)


def show_text(st, segs):
    w = R.word(st.strlang(segs))
    return repr(w) if w is not None else "?"


def atom(st, v, I):
    """An unconstrained value of rdftk_core: its type, its variant where the path depends on it, and its identity."""
    if not (is_opq(v) and isinstance(v[1], tuple) and v[1] and v[1][0] == "a"):
        return None
    import models_core
    idt = st.res(v[1][1])
    n = "".join(x.n[:-3] if isinstance(x, V) else str(x) for x in idt[1])
    t = I.p.ty(v[2])
    k = models_core.variant_of(st, v[1])
    info = I.p.adts.get(t.get("def"))
    var = "::" + info["variants"][k]["name"] if k is not None and info else ""
    return "%s%s %s" % (t.get("def", "?").split("::")[-1], var, n)


def show_input(st, v, I, i):
    a = atom(st, v, I)
    if a:
        return a
    if is_adt(v) and len(v) > 4:
        info = I.p.adts.get(v[1])
        return "%s::%s" % (v[1].split("::")[-1], info["variants"][v[2]]["name"]) if info else "any"
    if isinstance(v, tuple) and v and v[0] == "arr":
        return "[" + ", ".join(show_input(st, I.deref_all(st, x), I, i) for x in v[1]) + "]"
    if isinstance(v, tuple) and v and v[0] == "sbool":
        b = I.fact(st, v[1])
        return "any" if b is None else str(b != v[2]).lower()
    if isinstance(v, (bool, int)):
        return str(v).lower()
    if is_adt(v) and len(v[3]) == 1:
        return show_input(st, I.deref_all(st, v[3][0]), I, i)
    if is_str(v):
        return show_text(st, v[1])
    if isinstance(v, tuple) and v and v[0] == "url":
        d = []
        b = v[1]
        for comp in ("path", "query", "frag"):
            n = b + "|" + comp
            h = st.facts.get(("has", comp, b)) if comp != "path" else None
            if h is False:
                d.append("no " + {"frag": "fragment"}.get(comp, comp))
            elif n in st.lang or n in st.subst:
                d.append("%s=%s" % ({"frag": "fragment"}.get(comp, comp), show_text(st, (V(n),))))
        if st.facts.get(("cbb", b)):
            d.append("opaque path")
        return "IRI{%s}" % ", ".join(d)
    if is_opq(v):
        k = st.facts.get(("variant", v[1]))
        t = I.p.ty(v[2]) if v[2] >= 0 else {}
        if k is not None and t.get("def") in I.p.adts:
            return "%s::%s" % (t["def"].split("::")[-1], I.p.adts[t["def"]]["variants"][k]["name"])
        return "any"
    if isinstance(v, tuple) and v and v[0] == "tup":
        return "(" + ", ".join(show_input(st, I.deref_all(st, x), I, i) for x in v[1]) + ")"
    return "any"


def describe(v, st, I, depth=0):
    try:
        v = I.deref_all(st, v)
    except Bail:
        return "?"
    if is_str(v):
        return " + ".join(repr(s) if isinstance(s, str) else "<%s e.g. %s>" % (s.n.split("^")[0], show_text(st, (s,)))
                          for s in st.resolve(v[1])) or "''"
    if isinstance(v, Pred):
        return v.what
    if v == ANY:
        return "(anything)"
    if v == PANIC:
        return "panic"
    if atom(st, v, I):
        return atom(st, v, I)
    if isinstance(v, tuple) and v and v[0] == "arr":
        return "[" + ", ".join(describe(x, st, I, depth + 1) for x in v[1]) + "]"
    if is_adt(v):
        info = I.p.adts.get(v[1])
        n = info["variants"][v[2]]["name"] if info and v[2] < len(info["variants"]) else \
            {OPTION: ("None", "Some"), RESULT: ("Ok", "Err")}.get(v[1], ("",) * 9)[v[2] if v[2] < 2 else 0] or v[1].split("::")[-1]
        return n + ("(" + ", ".join(describe(x, st, I, depth + 1) for x in v[3]) + ")" if v[3] else "")
    if isinstance(v, tuple) and v and v[0] == "tup":
        return "(" + ", ".join(describe(x, st, I, depth + 1) for x in v[1]) + ")"
    if isinstance(v, tuple) and v and v[0] == "url":
        u = url_norm(I, st, v)
        return "url %s%s" % (u[1], "".join(" with %s := %s" % (k, describe(x, st, I)) for k, x in u[2]))
    return str(st.res(v))[:120]


def facts_text(st):
    out = []
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k and k[0] == "has":
            out.append("%s of %s %s" % (k[1], k[2], "present" if v else "absent"))
        elif isinstance(k, tuple) and k and k[0] == "alternate":
            out.append("alternate flag %s" % v)
        elif isinstance(k, tuple) and k and k[0] in ("seq", "ueq", "meq"):
            out.append("operands %s" % ("equal" if v else "different"))
    return "; ".join(out)


def unbalanced(I, st):
    """Are the assumed relations of lengths impossible together?  (Fourier and Motzkin)"""
    rows = []
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k[0] == "nonneg":
            r = st.res(("lin", k[1], k[2]))
            lp = I.as_lin(st, r)
            if lp is None:
                continue
            c, t = lp
            t = {x: n for x, n in t.items() if n}
            rows.append((c, t) if v else (-c - 1, {x: -n for x, n in t.items()}))
    for x in {x for _, t in rows for x in t}:
        rows.append((0, {x: 1}))
    while rows and len(rows) < 60:
        if any(c < 0 and not t for c, t in rows):
            return True
        rows = [(c, t) for c, t in rows if t]
        if not rows:
            return False
        x = next(iter(rows[0][1]))
        up = [r for r in rows if r[1].get(x, 0) > 0]
        lo = [r for r in rows if r[1].get(x, 0) < 0]
        rows = [r for r in rows if not r[1].get(x, 0)]
        for c, t in up:
            for d, u in lo:
                m, n = -u[x], t[x]
                w = {y: m * t.get(y, 0) + n * u.get(y, 0) for y in set(t) | set(u)}
                rows.append((m * c + n * d, {y: z for y, z in w.items() if z}))
    return False


NODE_PARTS = (("Statement.0.*.subject!id", "Statement.0.*.predicate", "Statement.0.*.object!id"), ("Resource.0",),
              ("Blank.0.0",), ("Iri.0",), ("BNode.0.0",))


def disordered(st):
    """Are the assumed equalities and orders of values not those of a total order?"""
    rep, less, differ = {}, {}, []

    def find(x):
        while x in rep:
            x = rep[x]
        return x
    for k, v in st.facts.items():
        if not isinstance(k, tuple) or not isinstance(k[0], str) or len(k) != 3:
            continue
        if k[0] == "seq" and isinstance(v, bool):
            r = st.res(k)
            if v:
                x, y = find(r[1]), find(r[2])
                if x != y:
                    rep[x] = y
            else:
                differ.append((r[1], r[2]))
        elif (k[0] == "scmp" or k[0].startswith("ord-")) and v in (0, 2):
            r = st.res(k)
            less.setdefault(k[0], []).append((r[1], r[2]) if v == 0 else (r[2], r[1]))
    # nodes equal part by part
    ids = list({x for ps in list(less.values()) + [differ] for p in ps for x in p
                if is_str(x) and len(x[1]) == 1 and not isinstance(x[1][0], str) and x[1][0].n.endswith("!id")})
    parts = {x: [[("str", tuple(st.resolve((V(x[1][0].n[:-3] + "~" + c),)))) for c in cs] for cs in NODE_PARTS] for x in ids}
    for _ in range(2):
        for i in range(len(ids)):
            for j in range(i):
                x, y = find(ids[i]), find(ids[j])
                if x != y and any(all(find(a) == find(b) for a, b in zip(ps, qs))
                                  for ps, qs in zip(parts[ids[i]], parts[ids[j]])):
                    rep[x] = y
    if any(find(x) == find(y) for x, y in differ):
        return True
    for pairs in less.values():
        after = {}
        for x, y in pairs:
            after.setdefault(find(x), set()).add(find(y))
        for start in after:
            seen, todo = set(), list(after[start])
            while todo:
                x = todo.pop()
                if x == start:
                    return True
                if x not in seen:
                    seen.add(x)
                    todo += after.get(x, ())
    return False


def same_pieces(st):
    """{piece: piece} of variables that were split alike and whose wholes are known to be equal"""
    out = {}
    for k, v in st.facts.items():
        if not (isinstance(k, tuple) and k[0] == "seq" and v is True):
            continue
        r = st.res(k)
        if r[1] == r[2] or not (is_str(r[1]) and is_str(r[2])) or len(r[1][1]) != len(r[2][1]) or len(r[1][1]) < 2:
            continue
        m = {}
        for x, y in zip(r[1][1], r[2][1]):
            if x == y:
                continue
            if isinstance(x, str) or isinstance(y, str) or x.n.partition("^")[2] != y.n.partition("^")[2] or \
                    x.n.partition("^")[0] == y.n.partition("^")[0] or st.strlang(st.words((x,))) != st.strlang(st.words((y,))):
                m = None
                break
            m[x] = y
        out.update(m or {})
    return out


def contradictory(I, st):
    """The path assumes different results of one uninterpreted function for operands now known to be equal."""
    seen = {}
    for k, v in st.facts.items():
        if not isinstance(k, tuple):
            continue
        r = I.unordered(st.res(k))
        if k[0] == "ueq" and v is False and url_norm(I, st, r[1]) == url_norm(I, st, r[2]):
            return True
        if k[0] == "seq" and v is True and is_str(r[1]) and is_str(r[2]) and \
                R.inter(st.strlang(st.words(r[1][1])), st.strlang(st.words(r[2][1]))) == R.EMPTY:
            return True
        if k[0] == "cmp" and r[2] == r[3] and v is (r[1] in ("Lt", "Gt", "Ne")):
            return True
        if isinstance(v, bool):
            if seen.setdefault(r, v) != v or r[0] in ("seq", "ueq", "meq") and not v and r[1] == r[2]:
                return True
        elif (str(k[0]).startswith("ord-") or k[0] == "scmp") and v in (0, 2) and r[1] == r[2]:
            return True
    if disordered(st) or unbalanced(I, st):
        return True
    same = same_pieces(st)
    if same:
        # texts taken apart the same way: equal as a whole, so equal piece by piece
        for k, v in st.facts.items():
            if isinstance(k, tuple) and (k[0] == "seq" and v is False or k[0] == "scmp" and v in (0, 2)):
                p, q = (tuple(same.get(x, x) for x in st.resolve(y[1])) if is_str(y) else y for y in st.res(k)[1:3])
                if p == q:
                    return True
    differ = {I.unordered(st.res(k))[1:] for k, v in st.facts.items()
              if isinstance(k, tuple) and k[0] == "seq" and v is False}
    differ |= {st.res(k)[1:3] for k, v in st.facts.items()
               if isinstance(k, tuple) and str(k[0]).startswith("ord-") and v in (0, 2)}
    for kind, ps in I.terms.items():
        rs = [st.res(q) for q in ps]
        for i in range(len(ps)):
            for j in range(i):
                if rs[i] != rs[j]:
                    continue
                ns = ["%s#%d" % (kind, x) for x in (i, j)]
                if any(n not in st.lang and n not in st.subst for n in ns):
                    continue
                a, b = (("str", tuple(st.resolve((V(n),)))) for n in ns)
                if a != b and ((a, b) in differ or (b, a) in differ):
                    return True
    return False


PARTIAL = [None]         # what the running check has found so far


def oops(e):
    return "%s at line %d" % (repr(e)[:120], e.__traceback__.tb_next.tb_lineno if e.__traceback__.tb_next else 0)


def check(prog, root, spec, observe=None, pre=None, maxsteps=None, on_panic=None, invariants=None, rep=False):
    """Run one root against one specification -> Outcome."""
    if rep:
        # every entry of an arbitrary map alike; where that does not decide, maps of few entries
        o = run(prog, root, spec, observe, pre, maxsteps, invariants, True)
        if not o.undecided:
            return o
        p = run(prog, root, spec, observe, pre, maxsteps, invariants, False)
        return o if p.undecided and not p.violations else p
    return run(prog, root, spec, observe, pre, maxsteps, invariants, False)


def run(prog, root, spec, observe, pre, maxsteps, invariants, rep):
    o = PARTIAL[0] = Outcome()
    f = prog.roots[root]
    I = prog.interp(prog) if getattr(prog, "interp", None) else Interp(prog, models.standard())
    I.invariants[("rdftk_iri::Namespace", 0)] = ENDS_COLON
    if invariants:
        invariants(I)
    I.rep_maps = rep
    if maxsteps:
        I.MAXSTEPS = maxsteps
    st0 = State()
    try:
        args = make_args(I, f, st0)
        c = Ctx(I, args)
        c.init = [I.deref_all(st0, a) for a in args]
        rs = []
        for s in (pre(c, st0) if pre else [st0]):
            rs += I.call(s, f.id, args)
    except Bail as e:
        o.undecided.append("%s: %s" % (root, e))
        return o
    finally:
        o.steps = I.steps
        o.functions = set(I.visited)
        o.sites = len(I.calls)
    o.paths = len(rs)
    for r in rs:
        if r.kind == "panic":
            got = PANIC
        else:
            got = r.val
        try:
            if r.kind == "panic":
                exps = spec(c, r.st, PANIC)
            else:
                exps = spec(c, r.st, got)
        except (Bail, AttributeError, IndexError, KeyError, TypeError, ValueError) as e:
            if r.kind == "panic":
                # what is specified depends on the result: there must be one
                exps = [(r.st, Pred(None, "a result"))]
            else:
                o.undecided.append("%s: specification: %s" % (root, e if isinstance(e, Bail) else oops(e)))
                continue
        for st, exp in exps:
            try:
                if exp == ANY:
                    continue
                if r.kind == "panic" or exp == PANIC:
                    if isinstance(exp, Pred):
                        res = [(st, False)]
                    else:
                        res = [(st, (r.kind == "panic") == (exp == PANIC))]
                else:
                    g = observe(c, st, got) if observe else got
                    res = c.same(st, g, exp)
            except (Bail, AttributeError, IndexError, KeyError, TypeError, ValueError) as e:
                o.undecided.append("%s: comparison: %s" % (root, e if isinstance(e, Bail) else oops(e)))
                continue
            for t, b in res:
                if b:
                    o.discharged += 1
                    continue
                if t.notes:
                    o.undecided.append("%s: %s" % (root, "; ".join(sorted(t.notes))[:200]))
                    continue
                if contradictory(I, t):
                    o.infeasible += 1
                    continue
                msg = {"root": root, "input": witness(t, args, I),
                       "got": "panic: %s (in %s)" % (r.val[0], r.val[1]) if r.kind == "panic"
                       else describe(observe(c, t, got) if observe else got, t, I),
                       "expected": describe(exp, t, I), "facts": facts_text(t),
                       "functions": sorted(prog.fns[x].name for x in I.visited
                                           if prog.fns[x].crate.startswith("rdftk"))}
                o.violations.append(msg)
    return o
