"""What the public operations of rdftk_iri have to compute, per property: (entry point, specification)."""
import models
import relang as R
import spec as SP
from absint import NONE, UNIT, Bail, V, adt, err, find_char, is_adt, is_str, mkstr, ok, rfind_char, some, split_by_dfa
from models import url_get, url_ser, url_set
from spec import ANY, ENDS_COLON, HAS_COLON, NAME, NAMESPACE, PANIC, Pred

NP = "rdftk_iri::error::NameParseError"
ERR = "rdftk_iri::error::Error"
NORMAL = Pred(lambda c, st, got: [(st, True)], "a normal return")
IS_OK = Pred(lambda c, st, got: [(t, g[2] == 0) for t, g in c.I.force(st, c.I.deref_all(st, got))], "Ok")
IS_ERR = Pred(lambda c, st, got: [(t, g[2] == 1) for t, g in c.I.force(st, c.I.deref_all(st, got))], "Err")


def variant(c, ty, name, *fields):
    info = c.I.p.adts.get(ty)
    if info is None:
        # the path a type is printed under depends on re-exports
        tail = ty.split("::")[-1]
        cand = [k for k in c.I.p.adts if k.split("::")[-1] == tail and k.split("::")[0] == ty.split("::")[0]]
        if len(cand) != 1:
            raise Bail("type %s not found" % ty)
        ty = cand[0]
        info = c.I.p.adts[ty]
    for i, v in enumerate(info["variants"]):
        if v["name"] == name:
            return adt(ty, i, fields)
    raise Bail("%s has no variant %s" % (ty, name))


def np(c, name, segs=None):
    return variant(c, NP, name, *([mkstr(segs)] if segs is not None else []))


# ------------------------------------------------------------------------------- parsing
def split_lang(st, segs, l):
    """[(state, text in l?)]"""
    return split_by_dfa(st, tuple(segs), l)


def ok_text(i, l):
    """Ok(the text itself) exactly for the language, Err otherwise."""
    def f(c, st, got):
        s = c.s(st, i)
        return [(t, ok(mkstr(t.resolve(s))) if b else IS_ERR) for t, b in split_lang(st, s, l)]
    return f


def ok_only(i, l):
    def f(c, st, got):
        return [(t, IS_OK if b else IS_ERR) for t, b in split_lang(st, c.s(st, i), l)]
    return f


def some_text(i, l):
    def f(c, st, got):
        s = c.s(st, i)
        return [(t, some(mkstr(t.resolve(s))) if b else NONE) for t, b in split_lang(st, s, l)]
    return f


def member(i, l):
    def f(c, st, got):
        return split_lang(st, c.s(st, i), l)
    return f


def ns_err(c, st, s):
    """[(st, error | None)] for a text offered as a prefix, in the documented classification."""
    out = []
    for t, b in split_lang(st, s, R.EPS):
        if b:
            out.append((t, np(c, "EmptyString")))
            continue
        for u, b in split_lang(t, s, NAMESPACE):
            if b:
                out.append((u, None))
                continue
            for w, b in split_lang(u, s, ENDS_COLON):
                if not b:
                    out.append((w, np(c, "MissingSeparator", w.resolve(s))))
                    continue
                for x, b in split_lang(w, s, R.concat(HAS_COLON, R.lit(":"))):
                    out.append((x, np(c, "TooManySeparators" if b else "InvalidCharacter", x.resolve(s))))
    return out


def name_err(c, st, s):
    out = []
    for t, b in split_lang(st, s, R.EPS):
        if b:
            out.append((t, np(c, "EmptyString")))
            continue
        for u, b in split_lang(t, s, NAME):
            out.append((u, None if b else np(c, "InvalidCharacter", u.resolve(s))))
    return out


def errors(f, i):
    """Only the error is specified here."""
    def g(c, st, got):
        return [(t, IS_OK if e is None else err(e)) for t, e in f(c, st, c.s(st, i))]
    return g


def ln_cases(c, st, s):
    """[(st, (ns, name) | error)] for a text offered as a qualified name."""
    out = []
    for t, b in split_lang(st, s, R.EPS):
        if b:
            out.append((t, np(c, "EmptyString")))
            continue
        for u, m in find_char(t, s, SP.COLON):
            if m is None:
                out.append((u, np(c, "MissingSeparator", u.resolve(s))))
                continue
            n = tuple(m[0]) + (":",)
            for w, e in ns_err(c, u, n):
                if e is not None:
                    out.append((w, e))
                    continue
                for x, e in name_err(c, w, m[2]):
                    out.append((x, e if e is not None else (x.resolve(n), x.resolve(m[2]))))
    return out


def ln_parse(c, st, got):
    return [(t, ok(("tup", (mkstr(r[0]), mkstr(r[1])))) if isinstance(r, tuple) and not is_adt(r) else IS_ERR)
            for t, r in ln_cases(c, st, c.s(st, 0))]


def ln_errors(c, st, got):
    return [(t, IS_OK if isinstance(r, tuple) and not is_adt(r) else err(r)) for t, r in ln_cases(c, st, c.s(st, 0))]


# ------------------------------------------------------------------------------- compositional
def valid(langs, f):
    """f(c, st) specifies the answer for operands in the given languages; an operand which could not be
    built (outer None) or which is not a valid one is decided by the parsing properties."""
    if UNCHECKED:
        langs = tuple((i, ENDS_COLON if l is NAMESPACE else R.ANY) for i, l in langs)

    def g(c, st, got):
        if got is not PANIC:
            x = c.I.deref_all(st, got)
            if isinstance(x, tuple) and x and x[0] == "tup":
                x = x[1][0]
            if is_adt(x) and x[2] == 0 and x[1].endswith("Option"):
                return [(st, ANY)]
        cur = [st]
        out = []
        for i, l in langs:
            nxt = []
            for t in cur:
                for u, b in split_lang(t, c.s(t, i), l):
                    if b:
                        nxt.append(u)
                    else:
                        out.append((u, ANY))
            cur = nxt
        for t in cur:
            out += f(c, t)
        return out
    return g


UNCHECKED = []       # non-empty: names may have any text, prefixes any that ends in ':'


def one(f):
    """A specification with a single answer."""
    def g(c, st, got=None):
        return [(st, f(c, st))]
    return g


N0, N1 = ((0, NAMESPACE),), ((0, NAMESPACE), (1, NAMESPACE))
M0, M1 = ((0, NAME),), ((0, NAME), (1, NAME))
L0 = ((0, NAMESPACE), (1, NAME))
L1 = L0 + ((2, NAMESPACE), (3, NAME))


def T(c, st, i):
    return mkstr(c.s(st, i))


def cat(c, st, *xs):
    out = ()
    for x in xs:
        out += (x,) if isinstance(x, str) else tuple(c.s(st, x))
    return mkstr(out)


def vtext(langs, *xs):
    """Some(concatenation of operands and literals)"""
    return valid(langs, lambda c, st: [(st, some(cat(c, st, *xs)))])


def vpair(langs, x, y):
    return valid(langs, lambda c, st: [(st, some(("tup", (cat(c, st, *x), cat(c, st, *y)))))])


def out_obs(c, st, got):
    return ("tup", (got, st.mem[("S", "out")]))


def shown(ret, *xs, wrap=True):
    def f(c, st):
        return [(st, ("tup", (some(ok(UNIT)) if wrap else ok(UNIT), cat(c, st, *xs))))]
    return f


def vshown(langs, *xs):
    return (valid(langs, shown(None, *xs)), {"observe": out_obs})


def same_true(langs):
    return valid(langs, lambda c, st: [(st, some(some(True)))])


# ------------------------------------------------------------------------------- comparisons
def both_eq(c, st, pairs):
    """[(st, bool)] all pairs of texts equal"""
    cur = [(st, True)]
    for a, b in pairs:
        nxt = []
        for t, e in cur:
            nxt += [(t, False)] if not e else c.I.str_eq(t, a, b)
        cur = nxt
    return cur


def eq_texts(pairs, langs):
    def f(c, st):
        return [(t, some(b)) for t, b in both_eq(c, st, [(c.s(st, i), c.s(st, j)) for i, j in pairs])]
    return valid(langs, f)


def lex(c, st, pairs):
    """[(st, 0|1|2)] lexicographic comparison"""
    cur = [(st, 1)]
    for i, j in pairs:
        nxt = []
        for t, o in cur:
            if o != 1:
                nxt.append((t, o))
            else:
                for u, r in models.ordering(c.I, t, mkstr(c.s(t, i)), mkstr(c.s(t, j)), "cmp", "scmp"):
                    nxt.append((u, r[2]))
        cur = nxt
    return cur


def ORD(o):
    return adt("std::cmp::Ordering", o)


def cmp_texts(pairs, langs, partial=False):
    def f(c, st):
        return [(t, some(some(ORD(o)) if partial else ORD(o))) for t, o in lex(c, st, pairs)]
    return valid(langs, f)


def const_some(langs, v):
    return valid(langs, lambda c, st: [(st, some(v))])


def hash_of(langs, n, probe, plain=False):
    """The hash is fed a function of the operands' texts and of nothing else."""
    def f(c, st):
        return [(st, Pred(hash_pred(n, probe), "a hash of the value's text only"))]
    return (valid(langs, f) if not plain else lambda c, st, got: f(c, st)), {}


def hash_pred(n, probe):
    def f(c, st, got):
        h = c.I.deref_all(st, c.args[probe])
        if not (isinstance(h, tuple) and h[:2] == ("obj", "hash")):
            return [(st, True)]
        allowed = set()
        for i in range(n):
            x = c.I.deref_all(st, c.args[i])
            if is_str(x):
                allowed |= {s.n for s in st.resolve(x[1]) if isinstance(s, V)}
            elif isinstance(x, tuple) and x[0] == "url":
                allowed |= {x[1] + "|" + k for k in ("ser", "path", "query", "frag")} | {x[1]}
        used = set()

        def walk(v):
            if isinstance(v, V):
                used.add(v.n)
            elif isinstance(v, tuple):
                if v and v[0] == "url":
                    used.add(v[1])
                for z in v:
                    walk(z)
        walk(st.res(h[2]))
        return [(st, used <= allowed)]
    return f


# ------------------------------------------------------------------------------- prefixed names
def pn_view_ns(c, st, segs):
    return ("tup", (True, False, some(mkstr(segs)), NONE))


def pn_view_ln(c, st, a, b):
    return ("tup", (False, True, NONE, some(("tup", (mkstr(a), mkstr(b))))))


def ir_view_iri(u):
    return ("tup", (True, False, some(u), NONE))


def ir_view_pn(v):
    return ("tup", (False, True, NONE, some(v)))


# ------------------------------------------------------------------------------- IRIs
def ret(v):
    def f(c, st, got):
        return [(st, v(c, st))]
    return f


def url_i(i):
    return ret(lambda c, st: c.u(st, i))


def iri_text(c, st, got):
    """Parsing: one pair of surrounding angle brackets is dropped, nothing else."""
    s = c.s(st, 0)
    ANG = R.concat_all([R.lit("<"), R.ANY, R.lit(">")])
    out = []
    for t, b in split_lang(st, s, ANG):
        inner = s
        if b:
            inner = None
            for u, m in find_char(t, s, R.CharSet.chars("<")):
                for w, n in rfind_char(u, m[2], R.CharSet.chars(">")):
                    out += parsed(c, w, n[0])
            continue
        out += parsed(c, t, inner)
    return out


class _F:
    df = "url::Url::parse"


def parsed(c, st, segs):
    out = []
    for t, r in models.url_parse(c.I, st, _F, [mkstr(st.resolve(segs))]):
        out.append((t, r if r[2] == 0 else err(parse_error(r[3][0]))))
    return out


def parse_error(e):
    """The error the URL parser reported for that text."""
    def f(c, st, got):
        g = c.I.deref_all(st, got)
        if g == e:
            return [(st, True)]
        return [(st, isinstance(g, tuple) and bool(g) and g[0] == "opq" and repr(e[1][1]) in repr(g[1]).replace('\\\\', '\\'))]
    return Pred(f, "the URL parser's error")


def comp(c, st, u, k):
    return url_get(c.I, st, u, k)


def with_frag(c, st, u, segs):
    return url_set(u, "frag", some(mkstr(segs)))


def split_cases(c, st, u):
    """[(st, None | (namespace, name segments))]"""
    out = []
    for t, fr in comp(c, st, u, "frag"):
        if fr != NONE:
            s = fr[3][0][1]
            for w, b in split_lang(t, s, NAME):
                out.append((w, (with_frag(c, w, u, ()), w.resolve(s)) if b else None))
            continue
        for w, q in comp(c, t, u, "query"):
            if q != NONE:
                out.append((w, None))
                continue
            for x, p in comp(c, w, u, "path"):
                for y, m in rfind_char(x, p[1], R.CharSet.chars("/")):
                    if m is None:
                        out.append((y, None))
                        continue
                    for z, b in split_lang(y, m[2], NAME):
                        if not b:
                            out.append((z, None))
                        else:
                            ns = url_set(u, "path", mkstr(z.resolve(tuple(m[0]) + ("/",))))
                            out.append((z, (ns, z.resolve(m[2]))))
    return out


def split_spec(pick):
    def f(c, st, got):
        return [(t, NONE if r is None else some(pick(r))) for t, r in split_cases(c, st, c.u(st, 0))]
    return f


def make_cases(c, st, u, name, frag="spec"):
    """[(st, None | url | ANY)]: `name` appended to a namespace IRI."""
    out = []
    for t, fr in comp(c, st, u, "frag"):
        if fr != NONE:
            for w, b in split_lang(t, fr[3][0][1], R.EPS):
                # an IRI with a name in its fragment is no namespace: not specified
                out.append((w, with_frag(c, w, u, name) if b else ANY))
            continue
        for w, q in comp(c, t, u, "query"):
            for x, p in comp(c, w, u, "path"):
                for y, b in split_lang(x, p[1], R.ends_with(R.lit("/"))):
                    if q != NONE or not b:
                        out.append((y, None))
                    else:
                        out.append((y, url_set(u, "path", mkstr(y.resolve(p[1] + tuple(name))))))
    return out


def opt(v):
    return ANY if v is ANY else NONE if v is None else some(v)


def make_spec(c, st):
    return [(t, ANY if v is ANY else some(opt(v))) for t, v in make_cases(c, st, c.u(st, 0), c.s(st, 1))]


def looks(c, st, got):
    """A namespace IRI has an empty fragment, or a path ending in '/' and no query."""
    u = c.u(st, 0)
    out = []
    for t, fr in comp(c, st, u, "frag"):
        fs = [(t, False)] if fr == NONE else split_lang(t, fr[3][0][1], R.EPS)
        for w, b in fs:
            if b:
                out.append((w, True))
                continue
            for x, p in comp(c, w, u, "path"):
                for y, e in split_lang(x, p[1], R.ends_with(R.lit("/"))):
                    if not e:
                        out.append((y, False))
                    else:
                        out += [(z, q == NONE) for z, q in comp(c, y, u, "query")]
    return out


PLAIN_NAME = R.inter(NAME, SP.ASCII)


def make_then_split(c, st):
    """Adding a name (one that needs no encoding) to a namespace IRI and splitting gives both back."""
    out = []
    u = c.u(st, 0)
    for t, v in make_cases(c, st, u, c.s(st, 1)):
        if v is ANY:
            out.append((t, ANY))
        elif v is None:
            out.append((t, NONE))
        else:
            # the namespace IRI as it was
            out.append((t, some(some(("tup", (u, T(c, t, 1)))))))
    return out


def split_then_make(c, st, got):
    u = c.u(st, 0)
    return [(t, NONE if r is None else some(some(u))) for t, r in split_cases(c, st, u)]


# ------------------------------------------------------------------------------- prefix maps
def base(c, i=0):
    m = c.init[i]
    while is_adt(m) and len(m[3]) == 1:
        m = m[3][0]
    if not (isinstance(m, tuple) and m and m[0] == "bimap"):
        raise Bail("map operand")
    return m


def final(c, st, got):
    return c.I.deref_all(st, c.args[0])


def ops_spec(mk):
    """The map is the original one with the given operations applied."""
    def f(c, st, got):
        b = base(c)
        return [(st, ("bimap", b[1], b[2] + tuple(mk(c, st))))]
    return f


def D():
    return adt("rdftk_iri::Namespace", 0, (mkstr((":",)),))


def ns_val(segs):
    return adt("rdftk_iri::Namespace", 0, (mkstr(segs),))


def iri_val(u):
    return adt("rdftk_iri::Iri", 0, (u,))


def get(c, st, m, key, left):
    return models.map_get(c.I, st, m[1], m[2], key, left, models.map_partner(c.I, left, None, None))


def arg(c, st, i):
    return c.I.deref_all(st, c.args[i])


def lookup(key, left, view=None, m=None):
    def f(c, st, got):
        b = m(c, st) if m else base(c)
        return [(t, NONE if r is None else some(view(c, t, r) if view else r))
                for t, r in get(c, st, b, key(c, st), left)]
    return f


def the_url(c, st, v):
    return models.get_url(c.I, st, v)


def the_text(c, st, v):
    v = c.I.deref_all(st, v)
    return v[3][0] if is_adt(v) else v


def map_empty(c, st, got):
    n = models.map_len(st, base(c))
    return [(st, n == 0 if isinstance(n, int) else ("sbool", ("cmp", "Eq", n, 0), False))]


def nslen(c, st, m):
    return models.map_len(st, m)


def vocab_ops(c, st, i, j):
    """[(st, op | PANIC)] of registering a vocabulary given by prefix and IRI texts."""
    out = []
    n = tuple(c.s(st, i)) + (":",)
    for t, b in split_lang(st, n, NAMESPACE):
        if not b:
            out.append((t, PANIC))
            continue
        for w, r in iri_from(c, t, c.s(t, j)):
            out.append((w, PANIC if r is None else ("ins", ns_val(w.resolve(n)), iri_val(r))))
    return out


def iri_from(c, st, segs):
    """[(st, url | None)] the IRI a text denotes."""
    cc = SP.Ctx(c.I, [mkstr(segs)])
    return [(t, r[3][0] if r[2] == 0 else None) for t, r in iri_text(cc, st, None)]


def with_vocab(c, st, got):
    b = base(c)
    return [(t, PANIC if o is PANIC else ("bimap", b[1], b[2] + (o,))) for t, o in vocab_ops(c, st, 1, 2)]


def expand_cases(c, st, m, n, s):
    out = []
    for t, r in get(c, st, m, ns_val(n), True):
        if r is None:
            out.append((t, None))
        else:
            out += make_cases(c, t, the_url(c, t, r), s)
    return out


def compress_cases(c, st, m, u):
    out = []
    for t, r in split_cases(c, st, u):
        if r is None:
            out.append((t, None))
            continue
        for w, p in get(c, t, m, iri_val(r[0]), False):
            out.append((w, None if p is None else (the_text(c, w, p)[1], r[1])))
    return out


def pair(r):
    return ("tup", (mkstr(r[0]), mkstr(r[1])))


def expand_spec(c, st):
    return [(t, ANY if v is ANY else some(opt(v))) for t, v in expand_cases(c, st, base(c), c.s(st, 1), c.s(st, 2))]


def compress_spec(c, st, got):
    return [(t, NONE if r is None else some(pair(r))) for t, r in compress_cases(c, st, base(c), c.u(st, 1))]


def compress_iriref(c, st, got):
    u = c.u(st, 1)
    return [(t, ir_view_iri(u) if r is None else ir_view_pn(pn_view_ln(c, t, r[0], r[1])))
            for t, r in compress_cases(c, st, base(c), u)]


def compress_expand(c, st, got):
    u = c.u(st, 1)
    return [(t, NONE if r is None else some(some(u))) for t, r in compress_cases(c, st, base(c), u)]


def expand_pre(c, st):
    """Case distinction on the namespace the prefix stands for, before the operation."""
    out = []
    for t, r in get(c, st, base(c), ns_val(c.s(st, 1)), True):
        if r is None:
            out.append(t)
            continue
        for u, fr in comp(c, t, the_url(c, t, r), "frag"):
            out += [u] if fr == NONE else [w for w, _ in split_lang(u, fr[3][0][1], R.EPS)]
    return out


def expand_compress(c, st):
    """For a namespace IRI that is one, the qualified name comes back."""
    out = []
    for t, v in expand_cases(c, st, base(c), c.s(st, 1), c.s(st, 2)):
        if v is ANY:
            out.append((t, ANY))
        elif v is None:
            out.append((t, NONE))
        else:
            out.append((t, some(some(("tup", (T(c, t, 1), T(c, t, 2)))))))
    return out


W3C = {"owl": "http://www.w3.org/2002/07/owl#", "rdf": "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
       "rdfs": "http://www.w3.org/2000/01/rdf-schema#", "xsd": "http://www.w3.org/2001/XMLSchema#"}
COMMON = dict(W3C, dcterms="http://purl.org/dc/terms/", skos="http://www.w3.org/2004/02/skos/core#",
              void="http://rdfs.org/ns/void#")
VOCABS = {
    "cal": ("cal", "http://www.w3.org/2002/12/cal/ical#"), "dbpedia": ("dbpedia", "http://dbpedia.org/ontology/"),
    "dc_elements": ("dc", "http://purl.org/dc/elements/1.1/"), "dc_terms": ("dcterms", COMMON["dcterms"]),
    "doap": ("doap", "http://usefulinc.com/ns/doap#"), "foaf": ("foaf", "http://xmlns.com/foaf/0.1/"),
    "geo_names": ("geonames", "http://www.geonames.org/ontology#"),
    "iso_skos": ("isothes", "http://purl.org/iso25964/skos-thes#"),
    "open_gis": ("opengis", "http://www.opengis.net/ont/geosparql#"), "org": ("org", "http://www.w3.org/ns/org#"),
    "owl": ("owl", W3C["owl"]), "rdf": ("rdf", W3C["rdf"]), "rdf_schema": ("rdfs", W3C["rdfs"]),
    "sioc": ("sioc", "http://rdfs.org/sioc/ns#"), "skos": ("skos", COMMON["skos"]),
    "skos_xl": ("skosxl", "http://www.w3.org/2008/05/skos-xl#"), "vann": ("vann", "http://purl.org/vocab/vann/"),
    "void": ("void", COMMON["void"]), "wot": ("wot", "http://xmlns.com/wot/0.1/"),
    "xml": ("xml", "http://www.w3.org/XML/1998/namespace"), "xml_schema": ("xsd", W3C["xsd"]),
}


def table(d):
    return ret(lambda c, st: ("bimap", "empty", tuple(
        ("ins", ns_val((k + ":",)), iri_val(("url", "const:" + v, ()))) for k, v in d.items())))


def rep_shown(pre, body, post):
    """The formatter received pre, then body(k, v) per entry, then post."""
    def f(c, st, got):
        b = base(c)
        if models.map_known(st, b[1]) is not None:
            segs = ()
            for k, v in models.map_known(st, b[1]):
                for x in body(k[3][0][1][0], V(v[3][0][1] + "|ser")):
                    segs += (x,)
            return [(st, Pred(lambda c, st, got: c.same(st, st.mem[("S", "out")], mkstr((pre,) + segs + (post,))), "the entries shown"))]
        e = "%s.entry" % b[1]
        for n, l in ((e + ".k", R.concat(R.ANY, R.lit(":"))), (e + ".v|ser", models.SERL)):
            if n not in st.lang and n not in st.subst:
                st.newvar(n, l)
        exp = mkstr(body(V(e + ".k"), V(e + ".v|ser")))[1]
        return [(st, Pred(rep_pred(pre, exp, post), "%r + one %s per entry + %r" % (pre, exp, post)))]
    return f


def rep_pred(pre, exp, post):
    def f(c, st, got):
        I = c.I
        segs = st.resolve(st.mem[("S", "out")][1])
        reps = [i for i, s in enumerate(segs) if isinstance(s, V) and s.n in I.reps]
        if len(reps) != 1:
            st = st.copy()
            if not any(isinstance(s, V) for s in segs) and not reps:
                # nothing per entry: definitely wrong unless the map is known to be empty
                return [(st, mkstr(segs) == mkstr((pre, post)) and bool(st.facts.get(("empty-map",))))]
            st.note("entries are not written by a simple repetition")
            return [(st, False)]
        i = reps[0]
        bodies = I.reps[segs[i].n]
        if len(bodies) != 1:
            # different entries are written differently
            return [(st, False)]
        out = []
        for t, b in c.I.str_eq(st, segs[:i], mkstr((pre,))[1]):
            for w, b2 in c.I.str_eq(t, segs[i + 1:], mkstr((post,))[1]):
                if b and b2:
                    out += c.I.str_eq(w, bodies[0], exp)
                else:
                    out.append((w, False))
        return out
    return f


# ------------------------------------------------------------------------------- table of properties
def panics(c, st, got):
    return [(st, NORMAL)]


def vocab_spec(k):
    p, i = VOCABS[k]
    return lambda c, st, got: [(st, ("tup", (mkstr((p,)), mkstr((i,)), Pred(lambda c, st, g: [(st, True)], "any"))))]


def voc_ns(c, st, got):
    n = tuple(c.s(st, 0)) + (":",)
    return [(t, mkstr(t.resolve(n)) if b else PANIC) for t, b in split_lang(st, n, NAMESPACE)]


def voc_iri(c, st, got):
    return [(t, PANIC if r is None else r) for t, r in iri_from(c, st, c.s(st, 1))]


def genid(c, st, got):
    """join(base, '/.well-known/genid/' + a fresh random UUID)"""
    def f(c, st, got):
        g = c.I.deref_all(st, got)
        terms = [k for k in st.facts if isinstance(k, tuple) and k and k[0] == "url-join"]
        if len(terms) != 1:
            st = st.copy()
            st.note("not built by joining")
            return [(st, False)]
        k = terms[0]
        want_ok = st.facts[k]
        u = c.u(st, 0)
        segs = st.resolve(k[2][1])
        good = k[1] == u and bool(segs) and isinstance(segs[0], str) and segs[0].startswith("/.well-known/genid/") \
            and any(isinstance(x, V) and x.n.startswith("uuid-") and "-v4#" in x.n for x in segs)
        if not good:
            return [(st, False)]
        if want_ok:
            r = g[3][0] if g[2] == 0 else None
            return [(st, isinstance(r, tuple) and r[0] == "url" and r[1].startswith("url-join#")
                     and c.I.term_payload(st, r[1]) == (k[1], k[2]) and not r[2])]
        return [(st, g[2] == 1 and is_adt(g[3][0]) and g[3][0][2] == variant(c, ERR, "Url", None)[2])]
    return [(st, Pred(f, "<base>/.well-known/genid/<fresh v4 UUID>"))]


PANIC_DOCUMENTED = {"voc_prefix_as_namespace", "voc_iri_as_iri", "map_with_vocabulary", "map_insert_vocabulary"}
NO_ANSWER = {"finish"}


def registry(roots):
    """property -> [(entry point, specification, options)]"""
    P = entries(roots)
    UNCHECKED.append(True)
    try:
        Q = entries(roots)
    finally:
        UNCHECKED.pop()
    for pid in ("C05", "C07", "C18", "C22"):
        P[pid] += [("u_" + r, sp, o) for r, sp, o in Q[pid] if r in UNCHECKED_ENTRIES]
    return P


def entries(roots):
    P = {}

    def add(pid, root, spec, opts=None):
        if isinstance(spec, tuple):
            spec, o2 = spec
            opts = dict(o2, **(opts or {}))
        P.setdefault(pid, []).append((root, spec, opts or {}))

    # C01 prefixes
    for r in ("ns_parse", "ns_parse_method", "ns_new_named_str", "ns_new_named_string"):
        add("C01", r, ok_text(0, NAMESPACE) if "parse" in r else named_ok)
    for r in ("ns_is_valid_str", "ns_is_valid_string"):
        add("C01", r, member(0, NAMESPACE))
    # C02 local names
    for r in ("name_parse", "name_parse_method"):
        add("C02", r, ok_text(0, NAME))
    for r in ("name_is_valid_str", "name_is_valid_string"):
        add("C02", r, member(0, NAME))
    # C03 qualified names
    for r in ("ln_parse", "ln_parse_method"):
        add("C03", r, ln_parse)
    # C04 errors
    for r in ("ns_parse", "ns_parse_method"):
        add("C04", r, errors(ns_err, 0))
    for r in ("name_parse", "name_parse_method"):
        add("C04", r, errors(name_err, 0))
    for r in ("ln_parse", "ln_parse_method"):
        add("C04", r, ln_errors)
    for r in ("ns_new_named_str", "ns_new_named_string"):
        add("C04", r, named_err)
    # C05 text forms
    for r in ("ns_to_string", "ns_as_ref", "ns_into_string", "ns_ref_into_string", "ns_clone"):
        add("C05", r, vtext(N0, 0))
    for r in ("name_to_string", "name_as_ref", "name_into_string", "name_ref_into_string", "name_clone"):
        add("C05", r, vtext(M0, 0))
    for r in ("ln_to_string", "ln_into_string", "ln_ref_into_string"):
        add("C05", r, vtext(L0, 0, 1))
    add("C05", "ln_clone", vpair(L0, (0,), (1,)))
    add("C05", "ln_as_curie", vtext(L0, "[", 0, 1, "]"))
    add("C05", "ns_display", vshown(N0, 0))
    add("C05", "name_display", vshown(M0, 0))
    add("C05", "ln_display", vshown(L0, 0, 1))
    add("C05", "ns_reparse", same_true(N0))
    add("C05", "name_reparse", same_true(M0))
    add("C05", "ln_reparse", same_true(L0))
    # C06 trusted construction, deserialisation
    for r in ("ns_unchecked_str", "ns_unchecked_string"):
        add("C06", r, unchecked_ns)
    for r in ("name_unchecked_str", "name_unchecked_string"):
        add("C06", r, ret(lambda c, st: T(c, st, 0)))
    for r in ("ln_unchecked_str", "ln_unchecked_string"):
        add("C06", r, unchecked_ln)
    # C07 parts of names
    add("C07", "ns_new_default", ret(lambda c, st: mkstr((":",))))
    add("C07", "ns_is_default", valid(N0, lambda c, st: [(t, some(b)) for t, b in split_lang(st, c.s(st, 0), R.lit(":"))]))
    add("C07", "ln_is_namespace_default",
        valid(L0, lambda c, st: [(t, some(b)) for t, b in split_lang(st, c.s(st, 0), R.lit(":"))]))
    add("C07", "ns_name_string", valid(N0, name_string))
    for r in ("ns_qualify", "name_qualify", "ln_new"):
        add("C07", r, vpair(L0, (0,), (1,)))
    add("C07", "ln_new_in_default", vpair(M0, (":",), (0,)))
    # C08 IRI text form
    for r in ("iri_from_str", "iri_parse", "iri_try_from"):
        add("C08", r, iri_text)
    for r in ("iri_from_url", "iri_from_url_ref", "iri_into_url", "iri_ref_into_url", "iri_clone"):
        add("C08", r, url_i(0))
    add("C08", "iri_as_mut_url", url_i(1))
    ser = lambda pre, post: ret(lambda c, st: mkstr((pre,) + url_ser(c.I, st, c.u(st, 0)) + (post,)))
    add("C08", "iri_as_ref_str", ser("", ""))
    add("C08", "iri_alt_string", ser("", ""))
    add("C08", "iri_to_string", ser("<", ">"))
    add("C08", "iri_display", iri_shown, {"observe": out_obs})
    add("C08", "ir_display_iri", iri_shown, {"observe": out_obs})
    # C09 replacing components
    for r in ("iri_with_new_path", "iri_with_new_path_string"):
        add("C09", r, ret(lambda c, st: url_set(c.u(st, 0), "path", T(c, st, 1))))
    for r in ("iri_with_new_fragment", "iri_with_new_fragment_string"):
        add("C09", r, ret(lambda c, st: url_set(c.u(st, 0), "frag", some(T(c, st, 1)))))
    add("C09", "iri_with_empty_fragment", ret(lambda c, st: url_set(c.u(st, 0), "frag", some(mkstr(())))))
    add("C09", "iri_with_no_fragment", ret(lambda c, st: url_set(c.u(st, 0), "frag", NONE)))
    add("C09", "iri_receiver_kept", url_i(0))
    # C10..C12 namespaces
    add("C10", "iri_looks_like_namespace", looks)
    add("C11", "iri_split", split_spec(lambda r: ("tup", (r[0], mkstr(r[1])))))
    add("C11", "iri_namespace", split_spec(lambda r: r[0]))
    add("C11", "iri_name", split_spec(lambda r: mkstr(r[1])))
    add("C12", "iri_make_name", valid(((1, NAME),), make_spec))
    add("C12", "iri_make_then_split", valid(((1, PLAIN_NAME),), make_then_split))
    add("C12", "iri_split_then_make", split_then_make)
    # C13 prefix map
    fin = {"observe": final}
    add("C13", "map_empty", ret(lambda c, st: ("bimap", "empty", ())))
    add("C13", "map_clone", ops_spec(lambda c, st: ()))
    add("C13", "map_with", ops_spec(lambda c, st: [("ins", arg(c, st, 1), arg(c, st, 2))]))
    add("C13", "map_with_default", ops_spec(lambda c, st: [("ins", D(), arg(c, st, 1))]))
    add("C13", "map_insert", ops_spec(lambda c, st: [("ins", arg(c, st, 1), arg(c, st, 2))]), fin)
    add("C13", "map_set_default_namespace", ops_spec(lambda c, st: [("ins", D(), arg(c, st, 1))]), fin)
    add("C13", "map_remove", ops_spec(lambda c, st: [("rml", arg(c, st, 1))]), fin)
    add("C13", "map_remove_default_namespace", ops_spec(lambda c, st: [("rml", D())]), fin)
    add("C13", "map_clear", ops_spec(lambda c, st: [("clr",)]), fin)
    add("C13", "map_with_vocabulary", with_vocab)
    add("C13", "map_insert_vocabulary", with_vocab, fin)
    add("C13", "map_len", ret(lambda c, st: models.map_len(st, base(c))))
    add("C13", "map_is_empty", map_empty)
    add("C13", "map_get_namespace", lookup(lambda c, st: arg(c, st, 1), True))
    add("C13", "map_get_prefix", lookup(lambda c, st: arg(c, st, 1), False))
    add("C13", "map_get_default_namespace", lookup(lambda c, st: D(), True))
    ins = lambda c, st: ("bimap",) + (base(c)[1], base(c)[2] + (("ins", arg(c, st, 1), arg(c, st, 2)),))
    add("C13", "map_insert_get", lookup(lambda c, st: arg(c, st, 3), True, the_url, ins))
    add("C13", "map_insert_get_prefix", lookup(lambda c, st: arg(c, st, 3), False, the_text, ins))
    add("C13", "map_remove_get", lookup(lambda c, st: arg(c, st, 2), True, the_url,
                                        lambda c, st: ("bimap", base(c)[1], base(c)[2] + (("rml", arg(c, st, 1)),))))
    add("C13", "map_clear_get", ret(lambda c, st: ("tup", (True, 0, NONE))))
    add("C13", "map_eq", lambda c, st, got: map_equal(c, st))
    add("C13", "map_mappings", rep_shown("", lambda k, v: (k, " ", v, "\n"), ""), {"rep": True})
    add("C13", "map_prefixes", rep_shown("", lambda k, v: (k, "\n"), ""), {"rep": True})
    add("C13", "map_iris", rep_shown("", lambda k, v: (v, "\n"), ""), {"rep": True})
    add("C13", "map_display", rep_shown("Prefixes(\n", lambda k, v: ("    ", k, "  <", v, "> ,\n"), ")\n"), {"rep": True})
    # C14 compress / expand
    add("C14", "map_expand", valid(((1, NAMESPACE), (2, NAME)), expand_spec))
    add("C14", "map_compress", compress_spec)
    add("C14", "map_compress_to_iriref", compress_iriref)
    add("C14", "map_compress_then_expand", compress_expand)
    add("C14", "map_expand_then_compress", valid(((1, NAMESPACE), (2, PLAIN_NAME)), expand_compress), {"pre": expand_pre})
    # C15 C16 well-known vocabularies
    add("C15", "map_default", table(W3C))
    add("C15", "map_common", table(COMMON))
    for k in VOCABS:
        add("C16", "vocab_" + k, vocab_spec(k))
    voc = lambda d: ret(lambda c, st: ("tup", (T(c, st, 0), T(c, st, 1), some(T(c, st, 2)) if d else NONE)))
    add("C16", "voc_new", voc(False))
    add("C16", "voc_with_description", voc(True))
    add("C16", "voc_prefix_as_namespace", voc_ns)
    add("C16", "voc_iri_as_iri", voc_iri)
    # C18 equality, order, hash
    t2 = {"ns": (((0, 1),), N1, "ns"), "name": (((0, 1),), M1, "name"), "ln": (((0, 2), (1, 3)), L1, "ln")}
    for k, (pairs, langs, _) in t2.items():
        add("C18", k + "_eq", eq_texts(pairs, langs))
        add("C18", k + "_cmp", cmp_texts(pairs, langs))
        add("C18", k + "_partial_cmp", cmp_texts(pairs, langs, True))
    add("C18", "ns_hash", hash_of(N0, 1, 1))
    add("C18", "name_hash", hash_of(M0, 1, 1))
    add("C18", "ln_hash", hash_of(L0, 2, 2))
    add("C18", "pn_hash_ns", hash_of(N0, 1, 1))
    add("C18", "pn_hash_ln", hash_of(L0, 2, 2))
    add("C18", "iri_hash", hash_of((), 1, 1, plain=True))
    add("C18", "voc_hash", hash_of((), 2, 2, plain=True))
    N_L = ((0, NAMESPACE), (1, NAMESPACE), (2, NAME))
    L_N = ((0, NAMESPACE), (1, NAME), (2, NAMESPACE))
    add("C18", "pn_eq_nn", eq_texts(((0, 1),), N1))
    add("C18", "pn_eq_ll", eq_texts(((0, 2), (1, 3)), L1))
    add("C18", "pn_eq_nl", const_some(N_L, False))
    add("C18", "pn_eq_ln", const_some(L_N, False))
    add("C18", "pn_cmp_nn", cmp_texts(((0, 1),), N1))
    add("C18", "pn_cmp_ll", cmp_texts(((0, 2), (1, 3)), L1))
    add("C18", "pn_cmp_nl", const_some(N_L, ORD(0)))
    add("C18", "pn_cmp_ln", const_some(L_N, ORD(2)))
    add("C18", "pn_partial_cmp_nn", cmp_texts(((0, 1),), N1, True))
    add("C18", "pn_partial_cmp_ll", cmp_texts(((0, 2), (1, 3)), L1, True))
    add("C18", "pn_partial_cmp_nl", const_some(N_L, some(ORD(0))))
    add("C18", "iri_eq", url_equal)
    add("C18", "ir_eq_ii", url_equal)
    add("C18", "iri_cmp", url_order(False))
    add("C18", "iri_partial_cmp", url_order(True))
    add("C18", "ir_eq_ip", const_some(((1, NAMESPACE), (2, NAME)), False))
    add("C18", "ir_eq_pp", eq_texts(((0, 2), (1, 3)), L1))
    add("C18", "voc_eq", lambda c, st, got: both_eq(c, st, [(c.s(st, 0), c.s(st, 2)), (c.s(st, 1), c.s(st, 3))]))
    add("C18", "voc_eq_desc", lambda c, st, got: both_eq(c, st, [(c.s(st, 2), c.s(st, 3))]))
    # C19 skolem IRIs
    add("C19", "iri_genid", genid)
    # C20 errors
    add("C20", "err_from_name", ret(lambda c, st: variant(c, ERR, "Name", arg(c, st, 0))))
    add("C20", "err_from_url", ret(lambda c, st: variant(c, ERR, "Url", arg(c, st, 0))))
    add("C20", "err_source", err_source)
    add("C20", "nperr_source", ret(lambda c, st: NONE))
    add("C20", "nperr_display", payload_shown, {"observe": out_obs})
    add("C20", "err_display", payload_shown, {"observe": out_obs})
    # C22 references
    add("C22", "pn_from_ns", valid(N0, lambda c, st: [(st, some(pn_view_ns(c, st, c.s(st, 0))))]))
    add("C22", "pn_from_ns_ref", valid(N0, lambda c, st: [(st, some(pn_view_ns(c, st, c.s(st, 0))))]))
    add("C22", "pn_clone_ns", valid(N0, lambda c, st: [(st, some(pn_view_ns(c, st, c.s(st, 0))))]))
    for r in ("pn_from_ln", "pn_from_ln_ref", "pn_clone_ln"):
        add("C22", r, valid(L0, lambda c, st: [(st, some(pn_view_ln(c, st, c.s(st, 0), c.s(st, 1))))]))
    add("C22", "pn_display_ns", vshown(N0, 0))
    add("C22", "pn_display_ln", vshown(L0, 0, 1))
    for r in ("ir_from_iri", "ir_from_iri_ref", "ir_clone_iri"):
        add("C22", r, ret(lambda c, st: ir_view_iri(c.u(st, 0))))
    for r in ("ir_from_pn_ns", "ir_from_pn_ns_ref"):
        add("C22", r, valid(N0, lambda c, st: [(st, some(ir_view_pn(pn_view_ns(c, st, c.s(st, 0)))))]))
    for r in ("ir_from_pn_ln", "ir_from_pn_ln_ref", "ir_clone_pn"):
        add("C22", r, valid(L0, lambda c, st: [(st, some(ir_view_pn(pn_view_ln(c, st, c.s(st, 0), c.s(st, 1)))))]))
    add("C22", "ir_display_ns", vshown(N0, 0))
    add("C22", "ir_display_ln", vshown(L0, 0, 1))
    # C23 serialised form
    add("C23", "ns_deserialize", some_text(0, NAMESPACE))
    add("C23", "name_deserialize", some_text(0, NAME))
    add("C23", "ns_serialize", vtext(N0, 0))
    add("C23", "name_serialize", vtext(M0, 0))
    add("C23", "iri_serialize", ret(lambda c, st: some(mkstr(url_ser(c.I, st, c.u(st, 0))))))
    add("C23", "iri_deserialize", iri_wire)
    true = lambda c, st: [(st, some(True))]
    add("C23", "ns_again", valid(N0, true))
    add("C23", "name_again", valid(M0, true))
    for r in ("iri_again", "ir_again_iri", "map_again_0"):
        add("C23", r, ret(lambda c, st: some(True)))
    for r in ("pn_again_ns", "ir_again_ns"):
        add("C23", r, valid(N0, true))
    for r in ("ln_again", "pn_again_ln", "ir_again_ln"):
        add("C23", r, valid(L0, true))
    add("C23", "map_again_1", valid(N0, true))
    # C17 no panics
    for r in sorted(roots):
        if r not in PANIC_DOCUMENTED and r not in NO_ANSWER and not r.startswith("selftest_"):
            add("C17", r, panics)
    return P


def named_ok(c, st, got):
    """The constructor from a bare name adds the ':' that is missing."""
    return [(t, ok(mkstr(s)) if e is None else IS_ERR) for t, s, e in named(c, st)]


def named_err(c, st, got):
    return [(t, IS_OK if e is None else err(e)) for t, s, e in named(c, st)]


def named(c, st):
    s = c.s(st, 0)
    out = []
    for t, b in split_lang(st, s, ENDS_COLON):
        x = t.resolve(s) if b else t.resolve(tuple(s) + (":",))
        for w, e in ns_err(c, t, x):
            out.append((w, w.resolve(x), e))
    return out


def unchecked_ns(c, st, got):
    s = c.s(st, 0)
    return [(t, mkstr(t.resolve(tuple(s) if b else tuple(s) + (":",)))) for t, b in split_lang(st, s, ENDS_COLON)]


def unchecked_ln(c, st, got):
    s = c.s(st, 0)
    return [(t, ("tup", (mkstr(t.resolve(tuple(s) if b else tuple(s) + (":",))), T(c, t, 1))))
            for t, b in split_lang(st, s, ENDS_COLON)]


def name_string(c, st):
    out = []
    for t, m in rfind_char(st, c.s(st, 0), SP.COLON):
        for w, b in split_lang(t, m[0], R.EPS):
            out.append((w, some(NONE if b else some(mkstr(w.resolve(m[0]))))))
    return out


def iri_shown(c, st, got):
    out = []
    for t, b in c.I.decide(st, ("alternate",)):
        s = url_ser(c.I, t, c.u(t, 0))
        out.append((t, ("tup", (ok(UNIT), mkstr(s if b else ("<",) + s + (">",))))))
    return out


def map_equal(c, st):
    a, b = base(c, 0), base(c, 1)
    a, b = sorted((st.res(a), st.res(b)), key=repr)
    return c.I.decide(st, ("meq", a, b))


def url_equal(c, st, got):
    return models.url_eq(c.I, st, c.u(st, 0), c.u(st, 1))


def url_order(partial):
    def f(c, st, got):
        x, y = mkstr(url_ser(c.I, st, c.u(st, 0))), mkstr(url_ser(c.I, st, c.u(st, 1)))
        return [(t, some(o) if partial else o) for t, o in models.ordering(c.I, st, x, y, "cmp", "scmp")]
    return f


def err_source(c, st, got):
    def f(c, st, g):
        g = c.I.deref_all(st, g)
        if not is_adt(g) or g[2] != 1:
            return [(st, False)]
        return [(st, True)]
    return [(st, Pred(f, "the wrapped error"))]


def payload_shown(c, st, got):
    """The message names the offending input / includes the wrapped error's message."""
    def f(c, st, g):
        g = c.I.deref_all(st, g)
        segs = st.resolve(g[1][1][1])
        out = []
        for t, x in payload(c, st, c.args[0]):
            if x is None:
                out.append((t, bool(segs)))
            elif is_str(x):
                out.append((t, all(z in segs for z in t.resolve(x[1]))))
            else:
                # some error displayed by its own crate
                out.append((t, any(isinstance(z, V) and z.n.startswith("display#") for z in segs)))
        return out
    return [(st, Pred(f, "a message naming the offending input"))]


def payload(c, st, v):
    v = c.I.deref_all(st, v)
    out = []
    for t, g in c.I.force(st, v):
        if not is_adt(g):
            out.append((t, g))
        elif not g[3]:
            out.append((t, None))
        else:
            x = c.I.deref_all(t, g[3][0])
            if is_str(x):
                out.append((t, x))
            else:
                out += payload(c, t, x)
    return out


def iri_wire(c, st, got):
    """What was serialised reads back; the serialised form is what the URL parser accepts."""
    out = []
    for t, r in parsed(c, st, c.s(st, 0)):
        out.append((t, some(r[3][0]) if r[2] == 0 else NONE))
    return out


# the entry points that are also analysed for names made without a check (called u_...)
UNCHECKED_ENTRIES = set("""
ns_to_string ns_as_ref ns_into_string ns_ref_into_string ns_clone name_to_string name_as_ref name_into_string
name_ref_into_string name_clone ln_to_string ln_into_string ln_ref_into_string ln_clone ln_as_curie ns_display
name_display ln_display ns_is_default ln_is_namespace_default ns_name_string ns_qualify name_qualify ln_new
ln_new_in_default ns_eq ns_cmp ns_partial_cmp name_eq name_cmp name_partial_cmp ln_eq ln_cmp ln_partial_cmp
ns_hash name_hash ln_hash pn_hash_ns pn_hash_ln pn_eq_nn pn_eq_ll pn_eq_nl pn_eq_ln pn_cmp_nn pn_cmp_ll
pn_cmp_nl pn_cmp_ln pn_partial_cmp_nn pn_partial_cmp_ll pn_partial_cmp_nl ir_eq_ip ir_eq_pp pn_from_ns
pn_from_ns_ref pn_clone_ns pn_from_ln pn_from_ln_ref pn_clone_ln pn_display_ns pn_display_ln ir_from_pn_ns
ir_from_pn_ns_ref ir_from_pn_ln ir_from_pn_ln_ref ir_clone_pn ir_display_ns ir_display_ln
""".split())

# (entry point, specification, options): each of these must be found to violate its specification
SELF_TESTS = [("selftest_rare_text", vtext(N0, 0), {}),
              ("selftest_rare_panic", panics, {}),
              ("selftest_fragment", url_i(0), {})]
