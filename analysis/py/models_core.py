"""Models used for the analysis of rdftk_core, beside those of models.py.

IRIs and language tags are texts here (the IRI component decides what rdftk_iri makes of a text),
nodes and graph names are atoms with an identity until code looks inside, and vectors, sets and maps
are sequences of their elements.
"""
import re

import models as M
import relang as R
from absint import (NONE, OPTION, UNIT, Bail, Interp, Res, V, adt, err, is_adt, is_opq, is_ref, is_str, mkstr, ok,
                    some, split_by_dfa)
from models import S, closed_order, obj, opq_str, seq_term

CORE = []
IRI, NAME_T, NS_T = "rdftk_iri::Iri", "rdftk_iri::Name", "rdftk_iri::Namespace"
P = "rdftk_core::model::"
SUBJ, OBJ, GNAME = P + "statement::SubjectNode", P + "statement::ObjectNode", P + "graph::GraphName"
DTYPE, COLL, BNODE = P + "literal::DataType", P + "statement::Collection", P + "statement::BlankNode"
STMT, LIT = P + "statement::Statement", P + "literal::Literal"
ATOMS = {SUBJ: "s", OBJ: "o", GNAME: "g", DTYPE: "d", COLL: "c"}
SEQS = ("arr",)


def cmodel(*pats):
    def deco(f):
        for p in pats:
            CORE.append((re.compile(p + r"\Z"), f))
        return f
    return deco


class CoreModels(M.Models):
    """Core models first; a core model may pass on to the general one."""
    def lookup(self, f):
        k = f.df
        if k not in self.cache:
            fs = [g for p, g in CORE if p.match(k)]
            base = super().lookup(f)
            if fs:
                def chain(I, st, f, a, fs=tuple(fs), base=base):
                    for g in fs:
                        r = g(I, st, f, a)
                        if r is not NotImplemented:
                            return r
                    return base(I, st, f, a) if base else NotImplemented
                self.cache[k] = chain
        return self.cache[k]


def standard():
    m = CoreModels()
    s = M.standard()
    m.ser_url, m.url_eq, m.byte_at = s.ser_url, s.url_eq, s.byte_at
    m.aggregate, m.symbolic = s.aggregate, s.symbolic
    for d in ATOMS:
        m.symbolic[d] = sym_atom
    m.symbolic[IRI] = sym_iri
    m.symbolic["language_tags::LanguageTag"] = sym_tag
    m.symbolic["std::sync::Arc"] = sym_box
    m.symbolic["std::boxed::Box"] = sym_box
    return m


def sym_atom(I, st, ty, name):
    I.sym_str(st, name + "!id")
    return ("opq", ("a", ("str", (V(name + "!id"),))), ty)


def sym_iri(I, st, ty, name):
    new = name not in st.lang and name not in st.subst
    v = I.sym_str(st, name)
    if new:
        st.lang[name] = M.SERL
        st.facts[("is-iri", v)] = True
    return adt(IRI, 0, (v,))


TAG = R.plus(R.cset(R.CharSet.of([(0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A)]).union(R.CharSet.chars("-"))))


def sym_tag(I, st, ty, name):
    new = name not in st.lang and name not in st.subst
    v = I.sym_str(st, name)
    if new:
        st.lang[name] = TAG
    return v


def sym_box(I, st, ty, name):
    e = I.p.ty(ty).get("as") or I.p.ty(ty).get("args")
    a = ("S", name + ".*")
    if a not in st.mem:
        st.mem[a] = I.mk_sym(st, box_elem(I, ty), name + ".*")
    return ("box", a)


def box_elem(I, ty):
    t = I.p.ty(ty)
    for k in ("ta", "args", "e"):
        if k in t:
            v = t[k]
            return v[0] if isinstance(v, list) else v
    m = re.match(r"std::(?:sync::Arc|boxed::Box)<(.*?)(, .*)?>$", t["name"])
    for i, x in enumerate(I.p.tys):
        if m and x["name"] == m.group(1):
            return i
    raise Bail("element type of " + t["name"])


# ------------------------------------------------------------------------------------ identity
def atom_id(st, v):
    """The identity of an atom (forced or not): its resolved segment, or None."""
    if is_opq(v) and isinstance(v[1], tuple) and v[1][0] == "a":
        return st.resolve(v[1][1][1])
    if is_adt(v) and len(v) == 5:
        return st.resolve(v[4][1])
    return None


def variant_of(st, term):
    k = ("variant", term)
    if k in st.facts:
        return st.facts[k]
    r = st.res(term)
    if ("variant", r) in st.facts:
        return st.facts[("variant", r)]
    for q, v in st.facts.items():
        if isinstance(q, tuple) and q[0] == "variant" and st.res(q[1]) == r:
            return v
    return None


class CoreInterp(Interp):
    maxnest = 2

    def __init__(self, prog):
        super().__init__(prog, standard())
        import spec
        self.atomic, self.atomic_cmp = set(), set()
        self.same_values = same_value
        self.invariants[(BNODE, 0)] = spec.NAME
        self.invariants[(NAME_T, 0)] = spec.NAME
        self.lazies = prog.__dict__.setdefault("lazies", {})

    def force(self, st, v):
        if not is_opq(v):
            return [(st, v)]
        if not (isinstance(v[1], tuple) and v[1][0] == "a"):
            return super().force(st, v)
        t = self.p.ty(v[2])
        info = self.p.adts[t["def"]]
        if info["kind"] != "enum":
            return [(st, v)]
        idt = st.res(v[1][1])
        term = ("a", idt)
        base = idt[1][0].n[:-3]
        known = variant_of(st, term)
        out = []
        for i, var in enumerate(info["variants"]):
            if known is not None and known != i:
                continue
            if known is None and var["name"] == "Statement" and base.count("~Statement") >= self.maxnest:
                continue
            s = st.copy()
            fs = []
            for j, ft in enumerate(t["vs"][i]):
                fs.append(self.mk_sym(s, ft, "%s~%s.%s" % (base, var["name"], var["fields"][j])))
            val = ("adt", t["def"], i, tuple(fs), idt)
            if known is None:
                s.facts[("variant", term)] = i
                self.spread(s, idt, i, fs)
            out.append((s, val))
        return out

    def spread(self, s, idt, i, fs):
        """Atoms known to differ, and of the same kind: their only text differs."""
        if len(fs) != 1:
            return
        x = text_of(self, s, fs[0])
        for k, v in list(s.facts.items()):
            if isinstance(k, tuple) and k[0] == "seq" and v is False:
                a, b = s.res(k[1]), s.res(k[2])
                o = b if a == idt else a if b == idt else None
                if o is None or variant_of(s, ("a", o)) != i or len(o[1]) != 1 or x is None:
                    continue
                n = x[0].n
                mine, other = idt[1][0].n[:-3], o[1][0].n[:-3]
                if n.startswith(mine):
                    on = other + n[len(mine):]
                    if on in s.lang or on in s.subst:
                        p, q = sorted([mkstr(s.resolve(x)), mkstr(s.resolve((V(on),)))], key=lambda z: repr(z[1]))
                        if p != q:
                            s.facts[("seq", p, q)] = False

    def run_loop(self, f, d, st0, head):
        """Everything has a known size here: loops are followed iteration by iteration."""
        blocks = self.info(f).loops[head]
        cur, out, early = [st0.copy()], [], 0
        for n in range(300):
            if n == 16:
                early = len(out)
            if n >= 24 and (len(cur) > 4 or len(out) > early):
                # the number of iterations is not known after all
                break
            nxt = []
            for st in cur:
                for kind, s, v in self.explore(f, d, [(st, head)], (head, blocks)):
                    if kind == "head":
                        nxt.append(s)
                    else:
                        out.append((kind, s, v))
            if not nxt:
                return self.join_kinds(out)
            cur = [s for s, _ in self.join([(s, None) for s in nxt])]
            if len(cur) + len(out) > 3000:
                break
        return super().run_loop(f, d, st0, head)

    def str_eq(self, st, a, b):
        x, y = st.words(a), st.words(b)
        if x != y and (fresh_in(x) or fresh_in(y)):
            # generated names are met nowhere else
            return [(st, False)]
        return super().str_eq(st, a, b)

    def binop(self, st, op, a, b):
        if op in ("Eq", "Ne") and is_adt(a) and is_adt(b):
            return [(s, r == (op == "Eq")) for s, r in same_value(self, st, a, b)]
        return super().binop(st, op, a, b)


def fresh_in(segs):
    return any(isinstance(s, V) and s.n.startswith("fresh") for s in segs)


def text_of(I, st, v):
    """Segments of a text-like value (String, Iri, BlankNode, Name...), or None."""
    v = I.deref_all(st, v)
    if is_str(v):
        return v[1]
    if is_adt(v) and len(v[3]) == 1 and v[1] not in (OPTION,) and len(v) == 4:
        x = v[3][0]
        if is_str(x):
            return x[1]
        if isinstance(x, tuple) and x and x[0] == "url":
            return M.url_ser(I, st, x)
        if is_adt(x) and v[1] in (BNODE, IRI):
            return text_of(I, st, x)
    if isinstance(v, tuple) and v and v[0] == "url":
        return M.url_ser(I, st, v)
    return None


def unbox(I, st, v):
    while True:
        if is_ref(v):
            v = I.load(st, v[1], v[2])
        elif isinstance(v, tuple) and v and v[0] == "box":
            v = I.load(st, v[1], ())
        else:
            return v


def same_value(I, st, x, y):
    """[(st, bool)]: are two values equal, taking equality to be that of the contents?"""
    x, y = unbox(I, st, x), unbox(I, st, y)
    a, b = atom_id(st, x), atom_id(st, y)
    if a is not None and b is not None:
        if a == b:
            return [(st, True)]
        known = I.fact(st, seq_term(a, b))
        if known is not None:
            return [(st, known)]
        if is_opq(x) and is_opq(y):
            va, vb = variant_of(st, x[1]), variant_of(st, y[1])
            if va is None and vb is None or I.p.adts[I.p.ty(x[2])["def"]]["kind"] != "enum":
                return atom_eq(I, st, a, b)
        out = []
        for s, p in I.force(st, x) if is_opq(x) else [(st, x)]:
            for t, q in I.force(s, y) if is_opq(y) else [(s, y)]:
                for u, r in structural(I, t, p, q):
                    if r:
                        u = u.copy()
                        a2, b2 = u.resolve(a), u.resolve(b)
                        if a2 != b2:
                            u.subst[b2[0].n] = a2
                            u.lang.pop(b2[0].n, None)
                    out.append((u, r))
        return out
    if is_opq(x) and (a is not None or x[1][0] == "s") and is_adt(y) or \
            is_opq(y) and (b is not None or y[1][0] == "s") and is_adt(x):
        out = []
        for s, p in I.force(st, x) if is_opq(x) else [(st, x)]:
            for t, q in I.force(s, y) if is_opq(y) else [(s, y)]:
                if is_opq(p) or is_opq(q):
                    raise Bail("comparison of %r" % (str(p)[:60],))
                out += structural(I, t, p, q)
        return out
    return structural(I, st, x, y)


def atom_eq(I, st, a, b):
    """Fork on the equality of two atoms of which nothing is known."""
    t, f = st.copy(), st.copy()
    term = seq_term(a, b)
    t.facts[term] = True
    f.facts[term] = False
    t.subst[b[0].n] = tuple(a)
    t.lang.pop(b[0].n, None)
    return [(t, True), (f, False)]


def elementwise(I, st, xs, ys):
    if len(xs) != len(ys):
        return [(st, False)]
    cur = [(st, True)]
    for p, q in zip(xs, ys):
        nxt = []
        for s, r in cur:
            nxt += same_value(I, s, p, q) if r else [(s, False)]
        cur = nxt
    return cur


def structural(I, st, x, y):
    tx, ty = text_of(I, st, x), text_of(I, st, y)
    if tx is not None and ty is not None:
        return I.str_eq(st, tx, ty)
    if is_opq(x) and is_opq(y):
        if st.res(x[1]) == st.res(y[1]):
            return [(st, True)]
        if x[1][0] == "s":
            out = []
            for s, p in I.force(st, x):
                for t, q in I.force(s, y):
                    if is_opq(p) or is_opq(q):
                        out += I.decide(t, Interp.unordered(("ueq", st.res(x[1]), st.res(y[1]))))
                    else:
                        out += structural(I, t, p, q)
            return out
        return I.decide(st, Interp.unordered(("ueq", st.res(x[1]), st.res(y[1]))))
    if is_adt(x) and is_adt(y):
        if x[2] != y[2]:
            return [(st, False)]
        return elementwise(I, st, x[3], y[3])
    if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0] in ("tup", "arr"):
        return elementwise(I, st, x[1], y[1])
    if is_opq(x) or is_opq(y) or is_adt(x) or is_adt(y):
        raise Bail("comparison of %r and %r" % (str(x)[:60], str(y)[:60]))
    out = []
    for s, v in I.binop(st, "Eq", x, y):
        out += I.truth(s, v)
    return out


def nested(st, v):
    a = atom_id(st, v)
    return a is not None and is_opq(v) and any(isinstance(s, V) and "~" in s.n for s in a)


def node_type(f):
    m = re.match(r"<(?:%s)?(\w+::\w+) as " % re.escape(P), f.df)
    return P + m.group(1) if m else None


@cmodel(r"<rdftk_core::model::(statement|graph|literal)::\w+ as std::cmp::PartialEq>::(eq|ne)")
def _(I, st, f, a):
    t = node_type(f)
    x, y = unbox(I, st, a[0]), unbox(I, st, a[1])
    if t in I.atomic or nested(st, x) and nested(st, y) or t == COLL and (is_opq(x) or is_opq(y)):
        return [(s, r == f.df.endswith("eq")) for s, r in same_value(I, st, x, y)]
    return NotImplemented


@cmodel(r"<rdftk_core::model::(statement|graph|literal)::\w+ as std::cmp::(Partial)?Ord>::(cmp|partial_cmp|lt|le|gt|ge)")
def _(I, st, f, a):
    t = node_type(f)
    x, y = unbox(I, st, a[0]), unbox(I, st, a[1])
    if t in I.atomic_cmp or nested(st, x) and nested(st, y) or t == COLL and (is_opq(x) or is_opq(y)):
        return atom_cmp(I, st, x, y, f.df.split("::")[-1], "ord-" + t.split("::")[-1])
    return NotImplemented


@cmodel(r"<rdftk_core::model::(statement|graph|literal)::\w+ as std::hash::Hash>::hash")
def _(I, st, f, a):
    x = unbox(I, st, a[0])
    if is_opq(x) and (nested(st, x) or node_type(f) in I.atomic or node_type(f) == COLL):
        return M.hash_feed(I, st, a[1], st.res(x[1]))
    return NotImplemented


@cmodel(r"<rdftk_core::model::(statement::(SubjectNode|ObjectNode|Collection)|graph::GraphName|literal::DataType) as std::clone::Clone>::clone")
def _(I, st, f, a):
    x = unbox(I, st, a[0])
    return [(st, x)] if atom_id(st, x) is not None else NotImplemented


@cmodel(r"<rdftk_core::model::statement::(SubjectNode|ObjectNode|Collection) as std::fmt::Display>::fmt")
def _(I, st, f, a):
    x = unbox(I, st, a[0])
    if not is_opq(x) or variant_of(st, x[1]) is not None and not nested(st, x):
        return NotImplemented
    alt = M.fmt_of(I, st, a[1])[3][0]
    out = []
    for s, b in ([(st, bool(alt))] if alt != "sym" else I.decide(st, ("alternate",))):
        s = s.copy()
        segs = opq_str(I, s, "display%s-%s" % ("#" if b else "", node_type(f).split("::")[-1]), ("str", x[1][1][1]))[1]
        M.buf_append(I, s, M.fmt_of(I, s, a[1])[2], segs)
        out.append((s, ok(UNIT)))
    return out


def atom_cmp(I, st, x, y, m, tag):
    """Three-way comparison of two values by an uninterpreted total order."""
    out = []
    known = closed_order(st, tag, key_of(I, st, x), key_of(I, st, y))
    if known is not None:
        a, b = key_of(I, st, x), key_of(I, st, y)
        if a[0] == b[0] == "str" and I.fact(st, seq_term(a[1], b[1])) is None:
            st = st.copy()
            st.facts[seq_term(a[1], b[1])] = False
        return ordered([(st, known)], m)
    for s, same in same_value(I, st, x, y):
        if same:
            out.append((s, 1))
            continue
        p, q = key_of(I, s, x), key_of(I, s, y)
        v = closed_order(s, tag, p, q)
        if v is not None:
            out.append((s, v))
            continue
        for v in (0, 2):
            t = s.copy()
            t.facts[(tag, p, q)] = v
            out.append((t, v))
    return ordered(out, m)


def ordered(out, m):
    res = []
    for s, v in out:
        if m == "cmp":
            res.append((s, adt("std::cmp::Ordering", v)))
        elif m == "partial_cmp":
            res.append((s, some(adt("std::cmp::Ordering", v))))
        else:
            res.append((s, {"lt": v == 0, "le": v <= 1, "gt": v == 2, "ge": v >= 1}[m]))
    return res


def key_of(I, st, v):
    a = atom_id(st, unbox(I, st, v))
    return ("str", tuple(a)) if a is not None else st.res(I.snapshot(st, v))


# ------------------------------------------------------------------------------------ texts of other crates
def iri(segs):
    return adt(IRI, 0, (mkstr(segs),))


def need_text(I, st, v):
    t = text_of(I, st, v)
    if t is None:
        raise Bail("text expected: %r" % (str(I.deref_all(st, v))[:60],))
    return st.resolve(t)


TEXTY = r"(rdftk_iri::Iri|language_tags::LanguageTag)"


@cmodel("<" + TEXTY + r" as std::clone::Clone>::clone")
def _(I, st, f, a):
    return [(st, I.deref_all(st, a[0]))]


@cmodel("<" + TEXTY + r" as std::cmp::PartialEq>::(eq|ne)")
def _(I, st, f, a):
    return [(s, b == f.df.endswith("eq")) for s, b in I.str_eq(st, need_text(I, st, a[0]), need_text(I, st, a[1]))]


@cmodel("<" + TEXTY + r" as std::cmp::(Partial)?Ord>::(cmp|partial_cmp|lt|le|gt|ge)")
def _(I, st, f, a):
    x, y = (mkstr(need_text(I, st, z)) for z in a[:2])
    return atom_cmp(I, st, x, y, f.df.split("::")[-1], "ord-" + f.df.split("::")[1].split(" ")[0])


@cmodel("<" + TEXTY + r" as std::hash::Hash>::hash")
def _(I, st, f, a):
    return M.hash_feed(I, st, a[1], mkstr(need_text(I, st, a[0])))


@cmodel(r"<(language_tags::LanguageTag|url::Url) as std::fmt::Display>::fmt")
def _(I, st, f, a):
    if "Url" in f.df and not is_str(I.deref_all(st, a[0])):
        return NotImplemented
    return M.display_str(I, st, mkstr(need_text(I, st, a[0])), a[1])


@cmodel(r"language_tags::LanguageTag::(primary_language|full_language)")
def _(I, st, f, a):
    x = need_text(I, st, a[0])
    st = st.copy()
    return [(st, mkstr(text_in(I, st, TAG, f.df.split("::")[-1], mkstr(x))))]


@cmodel(r"language_tags::LanguageTag::(extended_language|script|region|variant|extension|private_use)")
def _(I, st, f, a):
    x, n = mkstr(need_text(I, st, a[0])), f.df.split("::")[-1]
    out = []
    for s, b in I.decide(st, ("tag-has", n, x)):
        s = s.copy()
        out.append((s, M.some(mkstr(text_in(I, s, TAG, "tag-" + n, x))) if b else NONE))
    return out


@cmodel(r"language_tags::LanguageTag::(is_valid|is_language_range)")
def _(I, st, f, a):
    return [(st, ("sbool", ("tag", f.df.split("::")[-1], mkstr(need_text(I, st, a[0]))), False))]


@cmodel("<" + TEXTY + r" as std::(convert::AsRef<str>|ops::Deref|borrow::Borrow<str>)>::\w+", TEXTY + r"::(as_str|into_string)")
def _(I, st, f, a):
    return [(st, mkstr(need_text(I, st, a[0])))]


@cmodel(r"<rdftk_iri::Iri as std::(str::FromStr>::from_str|convert::TryFrom<&?(str|std::string::String)>>::try_from)")
def _(I, st, f, a):
    """A text is an IRI or it is not; a text known to be one stays as it is."""
    x = need_text(I, st, a[0])
    t = M.text(x, st)
    if t is not None:
        return NotImplemented
    if I.fact(st, ("is-iri", ("str", tuple(st.resolve(x))))):
        # what an IRI was written as reads back as that IRI
        return [(st, ok(iri(st.resolve(x))))]
    out = []
    for s, b in I.decide(st, ("is-iri", ("str", tuple(x)))):
        if not b:
            out.append((s, err(("opq", ("err", "iri"), -1))))
        else:
            s = s.copy()
            n = opq_str(I, s, "iri-of", ("str", tuple(x)))[1]
            s.lang[n[0].n] = M.SERL
            out.append((s, ok(iri(n))))
    return out


@cmodel(r"rdftk_iri::Iri::genid")
def _(I, st, f, a):
    e = st.copy()
    st = st.copy()
    n = fresh(st, "iri")
    st.lang[n.n] = M.SERL
    return [(st, ok(iri((n,)))), (e, err(("opq", ("err", "genid"), -1)))]


def fresh(st, kind):
    i = st.mem.get(("S", "fresh"), 0)
    st.mem[("S", "fresh")] = i + 1
    n = "fresh-%s%d" % (kind, i)
    return st.newvar(n, R.ANY)


@cmodel(r"<unique_id::sequence::SequenceGenerator as unique_id::Generator<\w+>>::next_id")
def _(I, st, f, a):
    st = st.copy()
    return [(st, ("sint", ("fresh-id", fresh(st, "id").n)))]


@cmodel(r"rdftk_iri::Name::is_valid_str")
def _(I, st, f, a):
    import spec
    return split_by_dfa(st, S(I, st, a[0]), spec.NAME)


@cmodel(r"<rdftk_iri::Name as std::str::FromStr>::from_str", r"<rdftk_iri::Namespace as std::str::FromStr>::from_str")
def _(I, st, f, a):
    import spec
    n = NAME_T if "Name as" in f.df else NS_T
    x = S(I, st, a[0])
    out = []
    for s, b in split_by_dfa(st, x, spec.NAME if n == NAME_T else spec.NAMESPACE):
        out.append((s, ok(adt(n, 0, (mkstr(x),))) if b else err(("opq", ("err", "name"), -1))))
    return out


# ------------------------------------------------------------------------------------ fmt
# what a debug rendering leaves as it is (among others)
# (letters of Latin, CJK and some symbols of four bytes as well as ASCII)
SAFE = R.star(R.cset(R.CharSet.of([(0x20, 0x7E), (0xC0, 0x24F), (0x4E00, 0x9FA5), (0x1F600, 0x1F64F)]).minus(R.CharSet.chars("\"\\"))))


def rust_debug(t):
    out = []
    for c in t:
        if c in "\"\\":
            out.append("\\" + c)
        elif c in "\n\r\t\0":
            out.append({"\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0"}[c])
        elif c.isprintable():
            out.append(c)
        else:
            out.append("\\u{%x}" % ord(c))
    return "".join(out)


WIDTHS = [R.cset(R.CharSet.of(x)) for x in ([(0, 0x7F)], [(0x80, 0x7FF)], [(0x800, 0xD7FF), (0xE000, 0xFFFF)], [(0x10000, 0x10FFFF)])]


@cmodel(r"core::str::<impl str>::len", r"std::string::String::len")
def _(I, st, f, a):
    """Few single characters: each of a known width."""
    x = S(I, st, a[0])
    cs = [s for s in x if not isinstance(s, str)]
    if not 0 < len(cs) <= 3 or not all(s.n in st.lang and R.single_charset(st.lang[s.n]) for s in cs):
        return NotImplemented
    cur = [st]
    for s in cs:
        nxt = []
        for t in cur:
            for w in WIDTHS:
                r = split_by_dfa(t, (s,), w)
                nxt += [u for u, b in r if b]
                rest = [u for u, b in r if not b]
                if not rest:
                    break
                t = rest[0]
        cur = nxt
    return [(t, I.str_len(t, mkstr(t.resolve(x)))) for t in cur]


@cmodel(r"<(str|std::string::String) as std::fmt::Debug>::fmt", r"std::str::<impl std::fmt::Debug for str>::fmt",
        r"core::str::<impl .*>::escape_debug")
def _(I, st, f, a):
    if f.df.endswith("escape_debug"):
        return NotImplemented
    x = S(I, st, a[0])
    res = []
    for st, safe in split_by_dfa(st, x, SAFE):
        st = st.copy()
        x = st.resolve(x)
        if safe:
            e = x
        elif all(isinstance(s, str) for s in x):
            e = (rust_debug("".join(x)),)
        else:
            e = opq_str(I, st, "escape", mkstr(x))[1]
        M.buf_append(I, st, M.fmt_of(I, st, a[1])[2], ('"',) + tuple(e) + ('"',))
        res.append((st, ok(UNIT)))
    return res


@cmodel(r"core::fmt::num::imp::<impl (u|i)(8|16|32|64|128|size)>::(_fmt|_fmt_inner|fmt)")
def _(I, st, f, a):
    """The digits, as a text value."""
    x = I.deref_all(st, a[0])
    if isinstance(x, int) and not isinstance(x, bool):
        return [(st, mkstr((str(x),)))]
    st = st.copy()
    return [(st, mkstr(digits(I, st, x, "<impl i" in f.df)))]


def digits(I, st, x, signed):
    if isinstance(x, tuple) and x[0] == "sint" and x[1][0] == "fresh-id":
        return (V(x[1][1]),)
    return M.int_text(I, st, x, signed)


@cmodel(r"(std|core)::fmt::(num::imp|num)?.*<impl std::fmt::Display for (u|i)\w+>::fmt", r"<(u|i)(8|16|32|64|128|size) as std::fmt::Display>::fmt")
def _(I, st, f, a):
    x = I.deref_all(st, a[0])
    if isinstance(x, tuple) and x[0] == "sint" and x[1][0] == "fresh-id":
        return M.display_str(I, st, mkstr((V(x[1][1]),)), a[1])
    return NotImplemented


@cmodel(r"<((u|i)(8|16|32|64|128|size)|bool) as std::string::(SpecToString|ToString)>::\w+")
def _(I, st, f, a):
    x = I.deref_all(st, a[0])
    if isinstance(x, int) or f.df.startswith("<bool"):
        return [(s, mkstr(("true" if b else "false",))) for s, b in I.truth(st, x)] if f.df.startswith("<bool") \
            else [(st, mkstr((str(x),)))]
    st = st.copy()
    return [(st, mkstr(digits(I, st, x, f.df.startswith("<i"))))]


@cmodel(r"<bool as std::fmt::Display>::fmt")
def _(I, st, f, a):
    out = []
    for s, b in I.truth(st, I.deref_all(st, a[0])):
        out += M.display_str(I, s, mkstr(("true" if b else "false",)), a[1])
    return out


@cmodel(r"std::intrinsics::assert_inhabited")
def _(I, st, f, a):
    return [(st, UNIT)]


@cmodel(r"std::time::Duration::(as_secs|as_millis|as_micros|as_nanos|subsec_nanos|subsec_micros|subsec_millis|is_zero)")
def _(I, st, f, a):
    x = st.res(I.snapshot(st, I.deref_all(st, a[0])))
    m = f.df.split("::")[-1]
    if isinstance(x, tuple) and x[0] == "adt" and len(x[3]) == 2:
        if m == "as_secs":
            return [(st, x[3][0])]
        if m == "subsec_nanos":
            return [(st, x[3][1])]
        if m.startswith("subsec") and isinstance(x[3][1], int):
            return [(st, x[3][1] // {"nanos": 1, "micros": 10 ** 3, "millis": 10 ** 6}[m[7:]])]
    if m == "is_zero":
        return [(st, ("sbool", ("dur0", x), False))]
    return [(st, ("sint", ("dur-" + m, x)))]


@cmodel(r"std::time::Duration::from_secs")
def _(I, st, f, a):
    return [(st, adt("std::time::Duration", 0, (a[0], 0)))]


@cmodel(r"std::time::Duration::new")
def _(I, st, f, a):
    n = a[1]
    if isinstance(n, int) and n < 10 ** 9 or isinstance(n, tuple) and n[0] == "sint" and n[1][0] == "Rem" and n[1][2] == 10 ** 9:
        return [(st, adt("std::time::Duration", 0, (a[0], n)))]
    return NotImplemented


# ------------------------------------------------------------------------------------ boxes
@cmodel(r"<std::(sync::Arc|rc::Rc|boxed::Box)<T, A> as std::cmp::(PartialEq|Ord|PartialOrd)>::(eq|ne|cmp|partial_cmp)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    x, y = (I.deref_all(st, z) for z in a[:2])
    if not all(isinstance(z, tuple) and z[0] == "box" for z in (x, y)):
        return NotImplemented
    if x == y:
        return ordered([(st, 1)], m) if m not in ("eq", "ne") else [(st, m == "eq")]
    g = (f.aux.get("eq" if m in ("eq", "ne") else "cmp") or [None])[0]
    if g is None:
        raise Bail("comparison of boxes")
    out = []
    for r in I.call(st, g, [("ref", x[1], ()), ("ref", y[1], ())]):
        if r.kind != "ret":
            out.append(r)
        elif m == "ne":
            out += [(s, not b) for s, b in I.truth(r.st, r.val)]
        else:
            out.append((r.st, some(r.val) if m == "partial_cmp" else r.val))
    return out


@cmodel(r"<std::(sync::Arc|rc::Rc|boxed::Box)<T, A> as std::fmt::Display>::fmt")
def _(I, st, f, a):
    x = I.deref_all(st, a[0])
    g = (f.aux.get("fmt") or [None])[0]
    if g is None or x[0] != "box":
        return NotImplemented
    return I.call(st, g, [("ref", x[1], ()), a[1]])


@cmodel(r"<std::(sync::Arc|rc::Rc|boxed::Box)<T, A> as std::hash::Hash>::hash")
def _(I, st, f, a):
    return M.hash_feed(I, st, a[1], ("boxed", st.res(I.snapshot(st, a[0]))))


@cmodel(r"std::(sync::Arc|rc::Rc)(::)?<T(, A)?>::(ptr_eq|unwrap_or_clone|try_unwrap|into_inner|as_ref|make_mut|get_mut)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    x = I.deref_all(st, a[0])
    if m == "ptr_eq":
        y = I.deref_all(st, a[1])
        g = (f.aux.get("eq") or [None])[0]
        if x == y:
            return [(st, True)]
        if g is None or not all(isinstance(z, tuple) and z[0] == "box" for z in (x, y)):
            raise Bail("Arc::ptr_eq")
        # two handles may share their value or not; they can only if the values are equal
        out = []
        for r in I.call(st, g, [("ref", x[1], ()), ("ref", y[1], ())]):
            if r.kind != "ret":
                raise Bail("Arc::ptr_eq")
            for s, b in I.truth(r.st, r.val):
                out.append((s, False))
                if b:
                    out.append((s.copy(), True))
        return out
    if m == "unwrap_or_clone" and x[0] == "box":
        return [(st, I.load(st, x[1], ()))]
    raise Bail("Arc::" + m)


# ------------------------------------------------------------------------------------ sequences
def seq_at(I, st, r):
    """(ref to the sequence, elements) behind references and boxes."""
    ref = None
    v = r
    while True:
        if is_ref(v):
            ref = v
            v = I.load(st, v[1], v[2])
        elif isinstance(v, tuple) and v and v[0] == "box":
            ref = ("ref", v[1], ())
            v = I.load(st, v[1], ())
        else:
            break
    if isinstance(v, tuple) and v and v[0] == "arr":
        return ref, v[1]
    if isinstance(v, tuple) and v[:2] == ("obj", "hmap") and not v[2]:
        return ref, ()
    return None, None


def put(I, st, ref, elems):
    st = st.copy()
    I.store(st, ref[1], ref[2], ("arr", tuple(elems)))
    return st


def at(ref, i, *more):
    return ("ref", ref[1], ref[2] + (("f", i),) + tuple(("f", k) for k in more))


def search(I, st, elems, x, key=None):
    """[(st, index or None)]: where an equal element is."""
    cur, out = [st], []
    for i, e in enumerate(elems):
        nxt = []
        for s in cur:
            for t, b in same_value(I, s, e if key is None else e[1][key], x):
                if b:
                    out.append((t, i))
                else:
                    nxt.append(t)
        cur = nxt
    return out + [(s, None) for s in cur]


def owned(elems):
    return obj("owniter", tuple(elems), 0, len(elems))


def drain(I, st, f, it, limit=4000):
    """All the elements an iterable value gives: [(st, tuple of elements) or Res]."""
    def last(key):
        return next((g for g in reversed(f.aux.get(key) or []) if g is not None), None)
    v = it
    x = I.deref_all(st, v) if not is_ref(v) else None
    cur = []
    if isinstance(x, tuple) and x and x[0] == "arr":
        return [(st, x[1])]
    g = last("into_iter")
    nx = last("iter_next") or last("next")
    if nx is None:
        raise Bail("iteration over %r in %s" % (str(x)[:40], f.df))
    out = []
    for r in I.call(st, g, [v]) if g is not None else [Res("ret", st, v)]:
        if r.kind != "ret":
            out.append(r)
            continue
        s = r.st.copy()
        if is_ref(r.val):
            cur.append((s, r.val, ()))
        else:
            ad = s.alloc(r.val, "B")
            cur.append((s, ("ref", ad, ()), ()))
    n = 0
    while cur:
        s, ref, acc = cur.pop()
        n += 1
        if n > limit or len(acc) > (40 if cur else 400):
            raise Bail("iteration does not end")
        for r in I.call(s, nx, [ref]):
            if r.kind != "ret":
                out.append(r)
                continue
            for t, w in I.force(r.st, r.val) if is_opq(r.val) else [(r.st, r.val)]:
                if w[2] == 0:
                    out.append((t, acc))
                else:
                    cur.append((t, ref, acc + (w[3][0],)))
    return out


def collected(rs, k):
    return [r if isinstance(r, Res) else k(r[0], r[1]) for r in rs]


def flat(rs, k):
    out = []
    for r in rs:
        if isinstance(r, Res) and r.kind != "ret":
            out.append(r)
        elif isinstance(r, Res):
            out += k(r.st, r.val)
        else:
            out += k(r[0], r[1])
    return out


def set_insert(I, st, elems, x):
    """[(st, elements, was new)]"""
    return [(s, elems + (x,), True) if i is None else (s, elems, False) for s, i in search(I, st, elems, x)]


def set_of(I, st, xs, elems=()):
    cur = [(st, tuple(elems))]
    for x in xs:
        cur = [(t, e) for s, el in cur for t, e, _ in set_insert(I, s, el, x)]
    return cur


def map_put(I, st, elems, k, v):
    """[(st, elements, old value or None)]"""
    out = []
    for s, i in search(I, st, elems, k, 0):
        if i is None:
            out.append((s, elems + (("tup", (k, v)),), None))
        else:
            out.append((s, elems[:i] + (("tup", (elems[i][1][0], v)),) + elems[i + 1:], elems[i][1][1]))
    return out


def map_of(I, st, pairs, elems=()):
    cur = [(st, tuple(elems))]
    for p in pairs:
        cur = [(t, e) for s, el in cur for t, e, _ in map_put(I, s, el, p[1][0], p[1][1])]
    return cur


# ---- construction
@cmodel(r"std::vec::Vec(::)?<T(, A)?>::(new|with_capacity|new_in)", r"<std::vec::Vec<T> as std::default::Default>::default",
        r"std::collections::Hash(Set|Map)(::)?<.*>::(new|with_capacity|with_hasher|with_capacity_and_hasher)",
        r"<std::collections::Hash(Set|Map)<.*> as std::default::Default>::default")
def _(I, st, f, a):
    return [(st, ("arr", ()))]


@cmodel(r"std::boxed::Box::<T>::new_uninit", r"std::boxed::Box<T>::new_uninit")
def _(I, st, f, a):
    st = st.copy()
    ad = st.alloc(adt("std::mem::MaybeUninit", 0, (UNIT, adt("std::mem::ManuallyDrop", 0, (UNIT,)))), "B")
    return [(st, ("box", ad))]


@cmodel(r"std::boxed::box_assume_init_into_vec_unsafe", r"std::slice::<impl \[T\]>::into_vec", r"std::boxed::Box::<.*>::assume_init")
def _(I, st, f, a):
    v = unbox(I, st, a[0])
    while is_adt(v) and v[1].split("::")[-1] in ("MaybeUninit", "ManuallyDrop", "MaybeDangling"):
        v = v[3][-1]
    if v[0] != "arr":
        raise Bail("vec! of %r" % (str(v)[:60],))
    return [(st, v)]


@cmodel(r"<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", r"<std::vec::Vec<T> as std::convert::From<.*>>::from",
        r"std::vec::Vec::<T>::from_elem", r"<std::boxed::Box<\[I\]> as std::iter::FromIterator<I>>::from_iter")
def _(I, st, f, a):
    it = I.deref_all(st, a[0])
    if isinstance(it, tuple) and it[:2] == ("obj", "chars"):
        x = one_by_one(st, M.S(I, st, it[2]))
        return NotImplemented if x is None else [(st, ("arr", x))]
    if not (f.aux.get("next") or f.aux.get("iter_next")):
        return NotImplemented
    return flat(drain(I, st, f, a[0]), lambda s, xs: [(s, ("arr", xs))])


@cmodel(r"<std::collections::HashSet<.*> as std::iter::FromIterator<T>>::from_iter",
        r"<std::collections::HashSet<.*> as std::convert::From<\[T; N\]>>::from")
def _(I, st, f, a):
    return flat(drain(I, st, f, a[0]), lambda s, xs: [(t, ("arr", e)) for t, e in set_of(I, s, xs)])


@cmodel(r"<std::collections::HashMap<.*> as std::iter::FromIterator<\(K, V\)>>::from_iter",
        r"<std::collections::HashMap<.*> as std::convert::From<\[\(K, V\); N\]>>::from")
def _(I, st, f, a):
    return flat(drain(I, st, f, a[0]), lambda s, xs: [(t, ("arr", e)) for t, e in map_of(I, s, xs)])


@cmodel(r"<std::vec::Vec<.*> as std::iter::Extend<.*>>::(extend|extend_one)", r"std::vec::Vec(::)?<.*>::(append|extend_from_slice)")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    if ref is None:
        return NotImplemented
    m = f.df.split("::")[-1]
    if m == "extend_one":
        return [(put(I, st, ref, el + (a[1],)), UNIT)]
    if m in ("append", "extend_from_slice"):
        r2, e2 = seq_at(I, st, a[1])
        st = put(I, st, ref, el + e2)
        return [(put(I, st, r2, ()) if m == "append" else st, UNIT)]
    return flat(drain(I, st, f, a[1]), lambda s, xs: [(put(I, s, ref, el + deref_items(I, s, f, xs)), UNIT)])


def deref_items(I, st, f, xs):
    if "Extend<&" in f.df:
        return tuple(I.deref_all(st, x) for x in xs)
    return tuple(xs)


@cmodel(r"<std::collections::HashSet<.*> as std::iter::Extend<.*>>::extend")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    if ref is None:
        return NotImplemented
    return flat(drain(I, st, f, a[1]),
                lambda s, xs: [(put(I, t, ref, e), UNIT) for t, e in set_of(I, s, deref_items(I, s, f, xs), el)])


@cmodel(r"<std::collections::HashMap<.*> as std::iter::Extend<\(K, V\)>>::extend")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    if ref is None:
        return NotImplemented
    return flat(drain(I, st, f, a[1]), lambda s, xs: [(put(I, t, ref, e), UNIT) for t, e in map_of(I, s, xs, el)])


@cmodel(r"<std::(vec::Vec|collections::Hash(Set|Map))<.*> as std::clone::Clone>::clone", r"std::slice::<impl \[T\]>::to_vec",
        r"<\[T\] as std::borrow::ToOwned>::to_owned", r"std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    if el is None:
        return NotImplemented
    st = st.copy()
    return [(st, ("arr", tuple(clone_value(I, st, e) for e in el)))]


def clone_value(I, st, v):
    """A copy that shares no mutable memory (Arcs may be shared)."""
    return v


@cmodel(r"<std::vec::Vec<.*> as std::ops::(Deref|DerefMut)>::\w+", r"<std::vec::Vec<.*> as std::convert::As(Ref|Mut)<.*>>::\w+",
        r"<std::vec::Vec<.*> as std::borrow::Borrow(Mut)?<.*>>::\w+", r"std::vec::Vec(::)?<.*>::(as_slice|as_mut_slice)")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    return NotImplemented if el is None else [(st, ref)]


@cmodel(r"std::vec::Vec(::)?<.*>::into_boxed_slice", r"std::vec::Vec(::)?<.*>::(shrink_to_fit|reserve|reserve_exact)",
        r"std::collections::Hash(Set|Map)(::)?<.*>::(shrink_to_fit|reserve)")
def _(I, st, f, a):
    if f.df.endswith("into_boxed_slice"):
        st = st.copy()
        return [(st, ("box", st.alloc(a[0], "B")))]
    return [(st, UNIT)]


# ---- size
@cmodel(r"std::(vec::Vec|collections::Hash(Set|Map))(::)?<.*>::(len|is_empty)", r"core::slice::<impl \[T\]>::(len|is_empty)",
        r"<std::(vec::IntoIter|slice::Iter|collections::hash_(set|map)::\w+)<.*> as std::iter::ExactSizeIterator>::(len|is_empty)")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    m = f.df.split("::")[-1]
    if el is None:
        v = I.deref_all(st, a[0])
        if isinstance(v, tuple) and v[:2] in (("obj", "owniter"), ("obj", "arriter"), ("obj", "fielditer")):
            n = v[4] - v[3]
            return [(st, n if m == "len" else n == 0)]
        return NotImplemented
    return [(st, len(el) if m == "len" else not el)]


# ---- vectors
@cmodel(r"std::vec::Vec(::)?<.*>::(push|pop|insert|remove|swap_remove|truncate|clear|retain|retain_mut|dedup|drain|split_off|push_mut)")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    if ref is None:
        return NotImplemented
    m = f.df.split("::")[-1]
    if m == "push":
        return [(put(I, st, ref, el + (a[1],)), UNIT)]
    if m == "clear":
        return [(put(I, st, ref, ()), UNIT)]
    if m == "pop":
        return [(put(I, st, ref, el[:-1]), some(el[-1]))] if el else [(st, NONE)]
    if m in ("retain", "retain_mut"):
        cur, out = [(st, ())], []
        for i in range(len(el)):
            nxt = []
            for s, keep in cur:
                for r in I.call_value(s, a[1], [at(ref, i)]):
                    if r.kind != "ret":
                        out.append(r)
                        continue
                    nxt += [(t, keep + ((i,) if b else ())) for t, b in I.truth(r.st, r.val)]
            cur = nxt
        for s, keep in cur:
            _, e = seq_at(I, s, ref)
            out.append((put(I, s, ref, [e[i] for i in keep]), UNIT))
        return out
    if m == "dedup":
        cur = [(st, el[:1])]
        for e in el[1:]:
            cur = [(t, kept if b else kept + (e,)) for s, kept in cur for t, b in same_value(I, s, kept[-1], e)]
        return [(put(I, s, ref, k), UNIT) for s, k in cur]
    if m == "drain":
        r = I.deref_all(st, a[1])
        if is_adt(r) and r[1].endswith("RangeFull"):
            return [(put(I, st, ref, ()), owned(el))]
        raise Bail("Vec::drain")
    k = a[1]
    if not isinstance(k, int):
        raise Bail("Vec::" + m)
    if m == "truncate":
        return [(put(I, st, ref, el[:k]), UNIT)]
    if m == "insert":
        return [(put(I, st, ref, el[:k] + (a[2],) + el[k:]), UNIT)] if k <= len(el) else [M.panic(st, "insertion index")]
    if m == "split_off":
        return [(put(I, st, ref, el[:k]), ("arr", el[k:]))] if k <= len(el) else [M.panic(st, "split_off index")]
    if k >= len(el):
        return [M.panic(st, "removal index")]
    if m == "remove":
        return [(put(I, st, ref, el[:k] + el[k + 1:]), el[k])]
    return [(put(I, st, ref, el[:k] + (el[-1:] if k < len(el) - 1 else ()) + el[k + 1:-1]), el[k])]


@cmodel(r"core::slice::<impl \[T\]>::(first|last|first_mut|last_mut|get|get_mut|iter|iter_mut|contains|reverse|swap|sort|sort_unstable|starts_with|ends_with|split_first|split_last)",
        r"std::slice::<impl \[T\]>::(sort|sort_by|sort_by_key)",
        r"<std::vec::Vec<.*> as std::ops::Index(Mut)?<I>>::\w+", r"core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::\w+")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    if el is None or ref is None:
        return NotImplemented
    m = f.df.split("::")[-1]
    if m in ("first", "last", "first_mut", "last_mut"):
        return [(st, some(at(ref, 0 if "first" in m else len(el) - 1)) if el else NONE)]
    if m in ("iter", "iter_mut"):
        return [(st, obj("arriter", ref, 0, len(el)))]
    if m == "contains":
        return [(s, i is not None) for s, i in search(I, st, el, a[1])]
    if m == "reverse":
        return [(put(I, st, ref, el[::-1]), UNIT)]
    if m in ("get", "get_mut"):
        if isinstance(a[1], int):
            return [(st, some(at(ref, a[1])) if a[1] < len(el) else NONE)]
        raise Bail("slice::get")
    if m in ("index", "index_mut"):
        i = I.deref_all(st, a[1])
        if isinstance(i, int):
            return [(st, at(ref, i))] if i < len(el) else [M.panic(st, "index out of bounds")]
        if is_adt(i) and i[1].endswith("RangeFull"):
            return [(st, ref)]
        lo, hi = M.range_bounds(st, I, i)
        lo, hi = lo if lo is not None else 0, hi if hi is not None else len(el)
        if isinstance(lo, int) and isinstance(hi, int):
            if not lo <= hi <= len(el):
                return [M.panic(st, "slice index")]
            st = st.copy()
            return [(st, ("ref", st.alloc(("arr", el[lo:hi]), "K"), ()))]
        raise Bail("slice index")
    raise Bail("slice::" + m)


@cmodel(r"std::slice::<impl \[T\]>::(join|concat)", r"<\[.*\] as std::(slice::Join|slice::Concat)<.*>>::(join|concat)",
        r"std::str::<impl std::slice::(Join|Concat)<.*> for \[S\]>::(join|concat)", r"std::slice::<impl \[V\]>::(join|concat)")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    if el is None:
        return NotImplemented
    sep = S(I, st, a[1]) if f.df.endswith("join") else ()
    out = ()
    for i, e in enumerate(el):
        t = text_of(I, st, e)
        if t is None:
            raise Bail("join of " + str(e)[:40])
        out += (tuple(sep) if i else ()) + tuple(t)
    return [(st, mkstr(out))]


def lexicographic(I, st, f, xs, ys, g):
    cur, out = [st], []
    for p, q in zip(xs, ys):
        nxt = []
        for s in cur:
            s = s.copy()
            rp, rq = ("ref", s.alloc(p, "K"), ()), ("ref", s.alloc(q, "K"), ())
            for r in I.call(s, g, [rp, rq]):
                for t, v in I.force(r.st, r.val):
                    if v[2] == 1:
                        nxt.append(t)
                    else:
                        out.append((t, v[2]))
        cur = nxt
    d = (len(xs) > len(ys)) - (len(xs) < len(ys)) + 1
    return out + [(s, d) for s in cur]


@cmodel(r"<std::vec::Vec<.*> as std::cmp::(Partial)?Ord(<.*>)?>::(cmp|partial_cmp)", r"core::slice::cmp::<impl std::cmp::(Partial)?Ord for \[T\]>::(cmp|partial_cmp)")
def _(I, st, f, a):
    (_, x), (_, y) = seq_at(I, st, a[0]), seq_at(I, st, a[1])
    g = (f.aux.get("cmp") or [None])[0]
    if x is None or y is None or g is None:
        return NotImplemented
    return ordered(lexicographic(I, st, f, x, y, g), f.df.split("::")[-1])


@cmodel(r"std::vec::partial_eq::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)",
        r"core::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)")
def _(I, st, f, a):
    (_, x), (_, y) = seq_at(I, st, a[0]), seq_at(I, st, a[1])
    if x is None or y is None:
        return NotImplemented
    g = (f.aux.get("eq") or [None])[0]
    if len(x) != len(y):
        return [(st, f.df.endswith("ne"))]
    cur, out = [st], []
    for p, q in zip(x, y):
        nxt = []
        for s in cur:
            s = s.copy()
            if g is None:
                rs = same_value(I, s, p, q)
            else:
                rp, rq = ("ref", s.alloc(p, "K"), ()), ("ref", s.alloc(q, "K"), ())
                rs = [z for r in I.call(s, g, [rp, rq]) for z in I.truth(r.st, r.val)]
            for t, b in rs:
                if b:
                    nxt.append(t)
                else:
                    out.append((t, f.df.endswith("ne")))
        cur = nxt
    return out + [(s, f.df.endswith("eq")) for s in cur]


@cmodel(r"<std::vec::Vec<.*> as std::hash::Hash>::hash", r".*<impl std::hash::Hash for \[T\]>::hash")
def _(I, st, f, a):
    return M.hash_feed(I, st, a[1], ("seq-of", st.res(I.snapshot(st, a[0]))))


# ---- sets
@cmodel(r"std::collections::HashSet(::)?<.*>::(insert|contains|get|remove|take|replace|clear|iter|retain|drain|union|intersection|difference|symmetric_difference|is_subset|is_superset|is_disjoint)")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    if ref is None:
        return NotImplemented
    m = f.df.split("::")[-1]
    if m == "insert":
        return [(put(I, s, ref, e), new) for s, e, new in set_insert(I, st, el, a[1])]
    if m == "clear":
        return [(put(I, st, ref, ()), UNIT)]
    if m == "iter":
        return [(st, obj("arriter", ref, 0, len(el)))]
    if m == "drain":
        return [(put(I, st, ref, ()), owned(el))]
    if m in ("contains", "get", "remove", "take"):
        out = []
        for s, i in search(I, st, el, a[1]):
            if m == "contains":
                out.append((s, i is not None))
            elif m == "get":
                out.append((s, NONE if i is None else some(at(ref, i))))
            elif i is None:
                out.append((s, False if m == "remove" else NONE))
            else:
                out.append((put(I, s, ref, el[:i] + el[i + 1:]), True if m == "remove" else some(el[i])))
        return out
    if m == "retain":
        return next(g for p, g in CORE if p.match("std::vec::Vec<T>::retain"))(I, st, f, a)
    if m in ("is_subset", "is_superset", "is_disjoint"):
        r2, e2 = seq_at(I, st, a[1])
        xs, ys = (e2, el) if m == "is_superset" else (el, e2)
        cur, out = [st], []
        for x in xs:
            nxt = []
            for s in cur:
                for t, i in search(I, s, ys, x):
                    if (i is not None) == (m == "is_disjoint"):
                        out.append((t, False))
                    else:
                        nxt.append(t)
            cur = nxt
        return out + [(s, True) for s in cur]
    raise Bail("HashSet::" + m)


@cmodel(r"<std::collections::HashSet<.*> as std::cmp::PartialEq>::(eq|ne)")
def _(I, st, f, a):
    (_, x), (_, y) = seq_at(I, st, a[0]), seq_at(I, st, a[1])
    if x is None or y is None:
        return NotImplemented
    return [(s, b == f.df.endswith("eq")) for s, b in same_set(I, st, x, y)]


def same_set(I, st, xs, ys):
    """Equality of duplicate-free sequences up to order."""
    if len(xs) != len(ys):
        return [(st, False)]
    return same_bag(I, st, xs, ys)


def same_bag(I, st, xs, ys):
    """Equality of multisets."""
    if len(xs) != len(ys):
        return [(st, False)]
    if not xs:
        return [(st, True)]
    out = []
    for s, i in search(I, st, ys, xs[0]):
        if i is None:
            out.append((s, False))
        else:
            out += same_bag(I, s, xs[1:], ys[:i] + ys[i + 1:])
    return out


# ---- maps
@cmodel(r"std::collections::HashMap(::)?<.*>::(insert|get|get_mut|contains_key|get_key_value|remove|remove_entry|clear|keys|values|values_mut|iter|iter_mut|into_keys|into_values|entry|retain|drain)")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    m = f.df.split("::")[-1]
    if el is not None and m in ("into_keys", "into_values"):
        return [(st, owned([e[1][0 if m == "into_keys" else 1] for e in el]))]
    if ref is None:
        return NotImplemented
    if m == "insert":
        return [(put(I, s, ref, e), NONE if old is None else some(old)) for s, e, old in map_put(I, st, el, a[1], a[2])]
    if m == "clear":
        return [(put(I, st, ref, ()), UNIT)]
    if m == "drain":
        return [(put(I, st, ref, ()), owned(el))]
    if m in ("keys", "values", "values_mut", "iter", "iter_mut"):
        kind = {"keys": 0, "values": 1, "values_mut": 1}.get(m, "pair")
        return [(st, obj("fielditer", ref, 0, len(el), kind))]
    if m == "retain":
        cur, out = [(st, ())], []
        for i in range(len(el)):
            nxt = []
            for s, keep in cur:
                for r in I.call_value(s, a[1], [at(ref, i, 0), at(ref, i, 1)]):
                    if r.kind != "ret":
                        out.append(r)
                        continue
                    nxt += [(t, keep + ((i,) if b else ())) for t, b in I.truth(r.st, r.val)]
            cur = nxt
        for s, keep in cur:
            _, e = seq_at(I, s, ref)
            out.append((put(I, s, ref, [e[i] for i in keep]), UNIT))
        return out
    out = []
    for s, i in search(I, st, el, a[1], 0):
        if m == "contains_key":
            out.append((s, i is not None))
        elif m == "entry":
            out.append((s, adt(ENTRY, 0 if i is not None else 1, (obj("entry", ref, i, a[1]),))))
        elif i is None:
            out.append((s, NONE))
        elif m in ("get", "get_mut"):
            out.append((s, some(at(ref, i, 1))))
        elif m == "get_key_value":
            out.append((s, some(("tup", (at(ref, i, 0), at(ref, i, 1))))))
        else:
            out.append((put(I, s, ref, el[:i] + el[i + 1:]), some(el[i][1][1] if m == "remove" else el[i])))
    return out


ENTRY = "std::collections::hash_map::Entry"


@cmodel(r"std::collections::hash_map::(Entry|OccupiedEntry|VacantEntry)(::)?<.*>::(\w+)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    kind = re.match(r"std::collections::hash_map::(\w+)", f.df).group(1)
    e = I.deref_all(st, a[0])
    whole = e
    if is_adt(e) and e[1] == ENTRY:
        e = I.deref_all(st, e[3][0])
    if not (isinstance(e, tuple) and e[:2] == ("obj", "entry")):
        raise Bail("map entry")
    _, _, ref, i, k = e

    def slot(s, n):
        return I.load(s, at(ref, i, n)[1], at(ref, i, n)[2])

    def added(s, v):
        _, el = seq_at(I, s, ref)
        return put(I, s, ref, el + (("tup", (k, v)),)), len(el)

    if kind == "OccupiedEntry":
        if m in ("get", "get_mut", "into_mut"):
            return [(st, at(ref, i, 1))]
        if m == "key":
            return [(st, at(ref, i, 0))]
        if m == "insert":
            old = slot(st, 1)
            st = st.copy()
            I.store(st, at(ref, i, 1)[1], at(ref, i, 1)[2], a[1])
            return [(st, old)]
        if m in ("remove", "remove_entry"):
            _, el = seq_at(I, st, ref)
            return [(put(I, st, ref, el[:i] + el[i + 1:]), el[i][1][1] if m == "remove" else el[i])]
        raise Bail("entry." + m)
    if kind == "VacantEntry":
        if m == "insert":
            s, n = added(st, a[1])
            return [(s, at(ref, n, 1))]
        if m == "insert_entry":
            s, n = added(st, a[1])
            return [(s, obj("entry", ref, n, k))]
        if m == "into_key":
            return [(st, k)]
        if m == "key" and is_ref(a[0]):
            # the key is the entry's own
            st = st.copy()
            return [(st, ("ref", st.alloc(k, "K"), ()))]
        raise Bail("entry." + m)
    if m == "insert_entry":
        if i is not None:
            st = st.copy()
            I.store(st, at(ref, i, 1)[1], at(ref, i, 1)[2], a[1])
            return [(st, e)]
        s, n = added(st, a[1])
        return [(s, obj("entry", ref, n, k))]
    if m in ("or_insert", "or_insert_with", "or_insert_with_key", "or_default"):
        if i is not None:
            return [(st, at(ref, i, 1))]
        if m == "or_insert":
            rs = [Res("ret", st, a[1])]
        elif m == "or_insert_with":
            rs = I.call_value(st, a[1], [])
        elif m == "or_default":
            g = (f.aux.get("default") or [None] * 2)[1]
            if g is None:
                raise Bail("or_default")
            rs = I.call(st, g, [])
        else:
            raise Bail("entry." + m)
        out = []
        for r in rs:
            if r.kind != "ret":
                out.append(r)
                continue
            s, n = added(r.st, r.val)
            out.append((s, at(ref, n, 1)))
        return out
    if m == "and_modify":
        if i is None:
            return [(st, whole)]
        return [r if r.kind != "ret" else (r.st, whole) for r in I.call_value(st, a[1], [at(ref, i, 1)])]
    raise Bail("entry." + m)


@cmodel(r"<std::collections::HashMap<.*> as std::cmp::PartialEq>::(eq|ne)")
def _(I, st, f, a):
    (_, x), (_, y) = seq_at(I, st, a[0]), seq_at(I, st, a[1])
    if x is None or y is None:
        return NotImplemented
    return [(s, b == f.df.endswith("eq")) for s, b in same_set(I, st, x, y)]


@cmodel(r"<std::collections::HashMap<.*> as std::ops::Index<&Q>>::index")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    if ref is None:
        return NotImplemented
    return [(s, at(ref, i, 1)) if i is not None else M.panic(s, "no entry found for key") for s, i in search(I, st, el, a[1], 0)]


# ---- iteration
@cmodel(r"<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter", r"<std::collections::Hash(Set|Map)<.*> as std::iter::IntoIterator>::into_iter",
        r"<&(mut )?std::(vec::Vec|collections::Hash(Set|Map))<.*> as std::iter::IntoIterator>::into_iter",
        r"std::array::<impl std::iter::IntoIterator for \[T; N\]>::into_iter", r"<\[T; N\] as std::iter::IntoIterator>::into_iter",
        r"(core|std)::slice::iter::<impl std::iter::IntoIterator for &(mut )?\[T\]>::into_iter")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    if el is None:
        return NotImplemented
    if is_ref(a[0]):
        if "HashMap" in f.df:
            return [(st, obj("fielditer", ref, 0, len(el), "pair"))]
        return [(st, obj("arriter", ref, 0, len(el)))]
    return [(st, owned(el))]


def it_at(it, k):
    _, kind, base, i, n = it[:5]
    if kind == "owniter":
        return base[k]
    if kind == "arriter":
        return at(base, k)
    if it[5] == "pair":
        return ("tup", (at(base, k, 0), at(base, k, 1)))
    return at(base, k, it[5])


def it_set(it, i, n):
    return it[:3] + (i, n) + it[5:]


ITERS = r"<std::(vec::(IntoIter|Drain)|array::IntoIter|slice::(Iter(Mut)?|Chunks(Exact)?)|collections::hash_(set|map)::\w+)<.*>"


def an_iter(v):
    return isinstance(v, tuple) and v[:2] in (("obj", "owniter"), ("obj", "arriter"), ("obj", "fielditer"))


@cmodel(ITERS + r" as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back|nth)")
def _(I, st, f, a):
    ref, it = M.it_load(I, st, a[0])
    if not an_iter(it):
        return NotImplemented
    m = f.df.split("::")[-1]
    i, n = it[3], it[4]
    st = st.copy()
    if m == "nth":
        if not isinstance(a[1], int):
            raise Bail("nth")
        i = min(n, i + a[1])
    if i >= n:
        I.store(st, ref[1], ref[2], it_set(it, n, n))
        return [(st, NONE)]
    back = m == "next_back"
    I.store(st, ref[1], ref[2], it_set(it, i, n - 1) if back else it_set(it, i + 1, n))
    return [(st, some(it_at(it, n - 1 if back else i)))]


@cmodel(ITERS + r" as std::iter::Iterator>::(size_hint|count|last)")
def _(I, st, f, a):
    it = I.deref_all(st, a[0])
    if not an_iter(it):
        return NotImplemented
    n = it[4] - it[3]
    m = f.df.split("::")[-1]
    if m == "count":
        return [(st, n)]
    if m == "last":
        return [(st, some(it_at(it, it[4] - 1)) if n else NONE)]
    return [(st, ("tup", (n, some(n))))]


@cmodel(ITERS + r" as std::iter::(Iterator|DoubleEndedIterator)>::(any|all|find|position|for_each|fold|try_fold|find_map|try_for_each|rfold|rfind|for_each)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    ref, it = M.it_load(I, st, a[0])
    if not an_iter(it):
        return NotImplemented
    if m in ("try_for_each", "rfind", "rfold"):
        return NotImplemented
    i, n = it[3], it[4]
    out = []
    cur = [(st, a[1] if m in ("fold", "try_fold") else None)]
    fn = a[2] if m in ("fold", "try_fold") else a[1]

    def step(s, k):
        s = s.copy()
        if ref is not None:
            I.store(s, ref[1], ref[2], it_set(it, k, n))
        return s
    for k in range(i, n):
        nxt = []
        for s, acc in cur:
            e = it_at(it, k)
            s = s.copy()
            if m == "find":
                arg = [("ref", s.alloc(e, "K"), ())]
            else:
                arg = [acc, e] if m in ("fold", "try_fold") else [e]
            if m == "try_fold":
                s = step(s, k + 1)
            for r in I.call_value(s, fn, arg):
                if r.kind != "ret":
                    out.append(r)
                elif m in ("for_each", "fold"):
                    nxt.append((r.st, r.val))
                elif m == "try_fold":
                    for u, v in I.force(r.st, r.val) if not is_adt(r.val) else [(r.st, r.val)]:
                        c = goes_on(v)
                        if c is None:
                            raise Bail("try_fold of %r" % (str(v)[:60],))
                        if c:
                            nxt.append((u, v[3][0] if v[3] else UNIT))
                        else:
                            out.append((u, v))
                elif m == "find_map":
                    for u, v in I.force(r.st, r.val) if not is_adt(r.val) else [(r.st, r.val)]:
                        if v[2] == 0:
                            nxt.append((u, None))
                        else:
                            out.append((step(u, k + 1), v))
                else:
                    for u, b in I.truth(r.st, r.val):
                        if b == (m == "all"):
                            nxt.append((u, None))
                        else:
                            v = {"any": True, "all": False, "find": some(e), "position": some(k - i)}[m]
                            out.append((step(u, k + 1), v))
        cur = nxt
    for s, acc in cur:
        if m == "try_fold":
            v = wrap_like(I, f, acc)
            if v is None:
                return NotImplemented
        else:
            v = {"any": False, "all": True, "find": NONE, "position": NONE, "find_map": NONE, "for_each": UNIT, "fold": acc}[m]
        out.append((step(s, n), v))
    return out


def goes_on(v):
    """Does a Try value continue?  (Option::Some, Result::Ok, ControlFlow::Continue)"""
    t = v[1].split("::")[-1]
    return {"Option": v[2] == 1, "Result": v[2] == 0, "ControlFlow": v[2] == 0}.get(t)


def wrap_like(I, f, acc):
    t = None
    if f.body is not None:
        t = I.p.ty(f.body["locals"][0])
    else:
        m = re.search(r"-> (.*)$", I.p.ty(f.ty)["name"]) if f.ty is not None and f.ty >= 0 else None
        t = {"name": m.group(1)} if m else None
    if t is None:
        return None
    n = t["name"]
    if "ControlFlow" in n[:60]:
        return adt("std::ops::ControlFlow", 0, (acc,))
    if n.startswith("std::option::Option"):
        return some(acc)
    if n.startswith("std::result::Result"):
        return ok(acc)
    return None


@cmodel(ITERS + r" as std::clone::Clone>::clone")
def _(I, st, f, a):
    it = I.deref_all(st, a[0])
    return [(st, it)] if an_iter(it) else NotImplemented


# ------------------------------------------------------------------------------------ numerals and encodings
NUM = R.star(R.cset(R.CharSet.of([(0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A)]).union(R.CharSet.chars("+-.:"))))
HEX = {"U": R.CharSet.of([(0x30, 0x39), (0x41, 0x46)]), "L": R.CharSet.of([(0x30, 0x39), (0x61, 0x66)])}
ANYHEX = HEX["U"].union(HEX["L"])
B64 = R.star(R.cset(R.CharSet.of([(0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A)]).union(R.CharSet.chars("+/=-_"))))


def text_in(I, st, lang, fname, *args):
    """The text made from values by a function that is only known by the language of its results."""
    t = opq_str(I, st, fname, *args)
    n = t[1][0].n
    if n in st.lang:
        st.lang[n] = R.inter(st.lang[n], lang)
    return t[1]


@cmodel(r"(std|core)::fmt::float::<impl std::fmt::Display for f(32|64)>::fmt", r"<f(32|64) as std::fmt::Display>::fmt",
        r"<rust_decimal::Decimal as std::fmt::Display>::fmt", r"<chrono::TimeDelta as std::fmt::Display>::fmt",
        r"rust_decimal::.*<impl std::fmt::Display for rust_decimal::Decimal>::fmt")
def _(I, st, f, a):
    st = st.copy()
    return M.display_str(I, st, mkstr(text_in(I, st, NUM, "display", I.deref_all(st, a[0]))), a[1])


@cmodel(r".*<impl std::fmt::(LowerHex|UpperHex) for u8>::fmt", r"<u8 as std::fmt::(LowerHex|UpperHex)>::fmt",
        r"<&T as std::fmt::(LowerHex|UpperHex)>::fmt")
def _(I, st, f, a):
    if f.df.startswith("<&T") and I.p.ty(f.args[0])["name"] != "u8":
        return NotImplemented
    x = I.deref_all(st, a[0])
    k = "U" if "UpperHex" in f.df else "L"
    m = M.fmt_of(I, st, a[1])
    alt, width, prec, fill = m[3][1:5]
    zero = fill is not None and isinstance(fill[-1], int) and fill[-1] >> 24 & 1
    if alt or prec is not None or width is not None and not (width == 2 and zero):
        return NotImplemented
    st = st.copy()
    if isinstance(x, int):
        segs = (("%02" if width else "%") + ("X" if k == "U" else "x")) % x,
    elif width is None:
        d = R.cset(HEX[k])
        segs = text_in(I, st, R.union(d, R.concat(d, d)), "hex" + k, x)
    else:
        hi, lo = (text_in(I, st, R.cset(HEX[k]), "hex%s-%s" % (k, p), x)[0] for p in ("high", "low"))
        st.facts[("hex", hi.n, lo.n)] = I.deref_all(st, x)
        segs = (hi, lo)
    st.mem[m[2]] = mkstr(st.resolve(st.mem[m[2]][1] + segs))
    return [(st, M.ok(M.UNIT))]


@cmodel(r"core::num::<impl u8>::from_str_radix")
def _(I, st, f, a):
    if a[1] != 16:
        return NotImplemented
    segs = st.resolve(need_text(I, st, a[0]))
    if len(segs) == 2 and all(isinstance(s, V) for s in segs):
        x = st.facts.get(("hex", segs[0].n, segs[1].n))
        if x is not None:
            return [(st, M.ok(x))]
    d = R.cset(ANYHEX)
    one = R.concat(R.star(R.lit("0")), R.union(d, R.concat(d, d)))
    good = R.union(one, R.concat(R.lit("+"), one))
    out = []
    for s, b in split_by_dfa(st, segs, good):
        if b:
            s = s.copy()
            known = s.resolve(segs)
            if all(isinstance(x, str) for x in known):
                out.append((s, M.ok(int("".join(known), 16))))
                continue
            out.append((s, M.ok(("sint", ("of-hex", mkstr(s.resolve(segs)))))))
        else:
            out.append((s, M.err(("opq", ("err", "hex"), -1))))
    return out


@cmodel(r"(core|std|alloc)::slice::<impl \[T\]>::chunks(_exact)?")
def _(I, st, f, a):
    ref, el = seq_at(I, st, a[0])
    n = a[1]
    if el is None or not isinstance(n, int) or n < 1 or ref is None:
        return NotImplemented
    st = st.copy()
    out = []
    for i in range(0, len(el), n):
        if i + n <= len(el) or not f.df.endswith("exact"):
            out.append(("ref", st.alloc(("arr", tuple(el[i:i + n])), "K"), ()))
    return [(st, owned(out))]


def plain(v):
    """A value behind references."""
    while isinstance(v, tuple) and v and v[0] == "&":
        v = v[1]
    return v


@cmodel(r"base64::(engine::)?Engine::encode")
def _(I, st, f, a):
    e, x = (plain(I.snapshot(st, v)) for v in a[:2])
    if x == ("arr", ()):
        return [(st, mkstr(()))]
    st = st.copy()
    t = text_in(I, st, B64, "base64", e, x)
    st.facts[("base64", t[0].n)] = (e, x)
    return [(st, mkstr(t))]


@cmodel(r"base64::(engine::)?Engine::decode")
def _(I, st, f, a):
    e = plain(I.snapshot(st, a[0]))
    segs = st.resolve(need_text(I, st, a[1]))
    if not segs:
        return [(st, M.ok(("arr", ())))]
    if len(segs) == 1 and isinstance(segs[0], V):
        k = st.facts.get(("base64", segs[0].n))
        if k is not None and k[0] == e:
            return [(st, M.ok(k[1]))]
    out = []
    for s, b in I.decide(st, ("base64-ok", e, mkstr(segs))):
        out.append((s, M.ok(("opq", ("base64", e, mkstr(segs)), -1)) if b else M.err(("opq", ("err", "base64"), -1))))
    return out


def one_by_one(st, segs):
    """The characters of a text whose number is known, or None."""
    out = []
    for x in st.resolve(segs):
        if isinstance(x, str):
            out += [("char", c) for c in x]
        elif x.n in st.lang and R.subset(st.lang[x.n], R.ANYCHAR):
            out.append(("char", x))
        else:
            return None
    return tuple(out)


@cmodel(r"<std::string::String as std::iter::FromIterator<.*>>::from_iter")
def _(I, st, f, a):
    def text(s, xs):
        segs = ()
        for x in xs:
            x = I.deref_all(s, x)
            segs += (x[1],) if isinstance(x, tuple) and x[0] == "char" else need_text(I, s, x)
        return [(s, mkstr(segs))]
    it = I.deref_all(st, a[0])
    el = seq_at(I, st, a[0])[1]
    if el is not None:
        return text(st, el)
    if isinstance(it, tuple) and it[:2] == ("obj", "chars") or not (an_iter(it) or f.aux.get("next") or f.aux.get("iter_next")):
        return NotImplemented
    return flat(drain(I, st, f, a[0]), text)
