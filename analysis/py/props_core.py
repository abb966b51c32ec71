"""Specifications of rdftk_core's nodes, statements, literals, graphs, data sets and resources.

A graph is a multiset (or set) of triples here, a data set a map from names to graphs; the order in
which an unordered container gives its elements plays no part in a comparison, and neither do the
names of generated blank nodes and IRIs (up to a bijection).
"""
from itertools import permutations

import models_core as MC
import relang as R
from absint import NONE, UNIT, Bail, adt, find_char, is_adt, is_opq, is_str, mkstr, some, split_by_dfa
from spec import ANY, COLON, NAME, NAMESPACE, PANIC, Pred

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD = "http://www.w3.org/2001/XMLSchema#"
SUBJ, OBJ, GNAME, DTYPE, COLL, BNODE = MC.SUBJ, MC.OBJ, MC.GNAME, MC.DTYPE, MC.COLL, MC.BNODE
LESS, EQUAL, GREATER = 0, 1, 2
B_NAME = R.concat(R.lit("_:"), NAME)


# ------------------------------------------------------------------------------------ values
def variants(c, ty):
    return {v["name"]: i for i, v in enumerate(c.I.p.adts[ty]["variants"])}


def node(c, ty, name, *fields):
    vs = variants(c, ty)
    if name not in vs:
        raise Bail("%s has no variant %s" % (ty, name))
    return adt(ty, vs[name], fields)


def opened(c, st, v):
    """[(st, variant name, fields)] of a node or option."""
    out = []
    for s, x in forced(c, st, v):
        info = c.I.p.adts.get(x[1])
        n = info["variants"][x[2]]["name"] if info else ("None", "Some")[x[2]]
        out.append((s, n, x[3]))
    return out


def forced(c, st, v):
    v = MC.unbox(c.I, st, v)
    return c.I.force(st, v) if is_opq(v) else [(st, v)]


def tup(*xs):
    return ("tup", tuple(xs))


def items(c, st, v):
    v = MC.unbox(c.I, st, v)
    if not (isinstance(v, tuple) and v and v[0] in ("tup", "arr")):
        raise Bail("tuple or list expected, got %r" % (str(v)[:60],))
    return tuple(MC.unbox(c.I, st, x) for x in v[1])


def arr(*xs):
    return ("arr", tuple(xs))


def iri_of(t):
    return MC.iri((t,) if isinstance(t, str) else t)


def rdf(t):
    return iri_of(RDF + t)


def text(segs):
    return mkstr(tuple(segs))


def name_of(segs):
    return adt(MC.NAME_T, 0, (mkstr(tuple(segs)),))


def bnode(segs):
    return adt(BNODE, 0, (name_of(segs),))


def stmt(c, st, v):
    """A statement held in a node, as a triple."""
    v = MC.unbox(c.I, st, v)
    if is_opq(v):
        raise Bail("statement expected")
    return tup(*v[3]) if is_adt(v) else v


def true_if(c, st, pairs):
    """[(st, bool)]: are all the pairs equal?"""
    cur = [(st, True)]
    for x, y in pairs:
        nxt = []
        for s, b in cur:
            nxt += MC.same_value(c.I, s, x, y) if b else [(s, False)]
        cur = nxt
    return cur


def eq(c, st, x, y):
    return MC.same_value(c.I, st, x, y)


# ------------------------------------------------------------------------------------ node views
def subject_view(c, st, n, x):
    return tup(n == "Blank", n == "Resource", n == "Statement", some(x) if n == "Blank" else NONE,
               some(x) if n == "Resource" else NONE, some(stmt(c, st, x)) if n == "Statement" else NONE)


def object_view(c, st, n, x):
    names = ("Blank", "Resource", "Literal", "Collection", "Statement")
    if n not in names:
        raise Bail("object kind " + n)
    vs = [some(stmt(c, st, x) if n == "Statement" else x) if n == k else NONE for k in names]
    return tup(tup(*[n == k for k in names]), *vs)


def name_view(c, st, n, x):
    n = {"BNode": "Blank", "Iri": "Resource"}.get(n, n)
    return tup(n == "Blank", n == "Resource", some(x) if n == "Blank" else NONE, some(x) if n == "Resource" else NONE)


def made(view, kind, i=0):
    """The view of a node of this kind holding the argument."""
    return lambda c, st, got: [(st, view(c, st, kind, c.args[i]))]


def parsed_name(view, kind, i=0):
    def f(c, st, got):
        out = []
        for t, b in split_by_dfa(st, tuple(c.s(st, i)), NAME):
            s = t.resolve(c.s(t, i))
            out.append((t, some(tup(text(s), view(c, t, kind, bnode(s)))) if b else NONE))
        return out
    return f


def viewed(view, i=0):
    return lambda c, st, got: [(s, view(c, s, n, x[0])) for s, n, x in opened(c, st, c.args[i])]


def blank_text(c, st, s):
    """[(st, name or None)]: the name a text denotes as a blank node, with or without '_:'."""
    out = []
    for t, b in split_by_dfa(st, tuple(s), NAME):
        if b:
            out.append((t, t.resolve(s)))
            continue
        for u, b in split_by_dfa(t, tuple(s), B_NAME):
            if not b:
                out.append((u, None))
                continue
            for w, m in find_char(u, u.resolve(s), COLON):
                if m is not None:
                    out.append((w, m[2]))
    return out


def bnode_from_str(c, st, got):
    return [(t, NONE if n is None else some(text(n))) for t, n in blank_text(c, st, c.s(st, 0))]


def bnode_valid(c, st, got):
    return [(t, n is not None) for t, n in blank_text(c, st, c.s(st, 0))]


def named_option(f):
    """Some(f(text)) when the first argument is a name."""
    def g(c, st, got):
        return [(t, some(f(c, t, t.resolve(c.s(t, 0)))) if b else NONE)
                for t, b in split_by_dfa(st, tuple(c.s(st, 0)), NAME)]
    return g


def fixed(f):
    """An expectation without case distinctions."""
    return lambda c, st, got: [(st, f(c, st))]


def btext(c, st, i=0):
    t = MC.text_of(c.I, st, c.args[i])
    if t is None:
        raise Bail("text expected")
    return t


def to_object(c, st, v):
    return [(s, node(c, OBJ, n, *x)) for s, n, x in opened(c, st, v)]


def s_to_object(c, st, got):
    return [(s, object_view(c, s, n, x[0])) for s, n, x in opened(c, st, c.args[0])]


def s_round(c, st, got):
    return [(s, some(node(c, SUBJ, n, *x))) for s, n, x in opened(c, st, c.args[0])]


def o_to_subject(c, st, got):
    out = []
    for s, n, x in opened(c, st, c.args[0]):
        out.append((s, NONE if n in ("Literal", "Collection") else some(subject_view(c, s, n, x[0]))))
    return out


def node_is(kind, wrap=None):
    """Comparison of a node with a bare value: of that kind, and holding an equal one."""
    def f(c, st, got):
        out = []
        for s, n, x in opened(c, st, c.args[0]):
            if n != kind:
                out.append((s, False))
                continue
            v = stmt(c, s, x[0]) if kind == "Statement" else x[0]
            out += eq(c, s, v, c.args[1])
        return out
    return f


def same_node(i=0):
    return lambda c, st, got: [(st, c.args[i])]


# ------------------------------------------------------------------------------------ equality and order
def both(c, st, got):
    """(==, !=) of the two arguments."""
    return [(s, tup(b, not b)) for s, b in eq(c, st, c.args[0], c.args[1])]


def order_of(c, st, v):
    v = MC.unbox(c.I, st, v)
    if not (is_adt(v) and v[1].endswith("Ordering")):
        raise Bail("ordering expected")
    return v[2]


def compared(c, st, got):
    """(a.cmp(b), b.cmp(a), a.partial_cmp(b), a == b)"""
    def f(c, st, got):
        x, y, p, e = items(c, st, got)
        x, y = order_of(c, st, x), order_of(c, st, y)
        out = []
        for s, n, z in opened(c, st, p):
            for t, b in c.I.truth(s, e):
                for u, same in eq(c, t, c.args[0], c.args[1]):
                    out.append((u, y == 2 - x and n == "Some" and order_of(c, u, z[0]) == x and b == (x == EQUAL)
                                and b == same))
        return out
    return [(st, Pred(f, "a comparison that is the same both ways round and agrees with equality"))]


def transitive(c, st, got):
    """(a.cmp(b), b.cmp(c), a.cmp(c))"""
    def f(c, st, got):
        x, y, z = (order_of(c, st, v) for v in items(c, st, got))
        if {x, y} == {LESS, GREATER}:
            return [(st, True)]
        return [(st, z == (x if x != EQUAL else y))]
    return [(st, Pred(f, "a transitive comparison"))]


def hashed(i):
    def f(c, st, got):
        h = c.I.deref_all(st, c.args[i])
        if not (isinstance(h, tuple) and h[:2] == ("obj", "hash")):
            raise Bail("the hash is not determined")
        return [(st, bool(h[2]) and not mentions_address(h[2]))]
    return lambda c, st, got: [(st, Pred(f, "a hash of the value's contents only"))]


def hash_entry(c, st, x, y):
    if st.res(x) == st.res(y):
        return [(st, True)]
    if is_str(x) and is_str(y):
        return c.I.str_eq(st, x[1], y[1])
    if is_opq(x) and is_opq(y):
        return eq(c, st, x, y)
    if type(x) is tuple and type(y) is tuple and len(x) == len(y):
        cur = [(st, True)]
        for p, q in zip(x, y):
            cur = [(u, e) for t, r in cur for u, e in (hash_entry(c, t, p, q) if r else [(t, False)])]
        return cur
    return [(st, False)]


def hashed_alike(i, j):
    """Two hashers, given one value each; the result says whether the values are equal."""
    def f(c, st, got):
        out = []
        for s, b in c.I.truth(st, got):
            x, y = (c.I.deref_all(s, c.args[k]) for k in (i, j))
            if any(not (isinstance(h, tuple) and h[:2] == ("obj", "hash")) for h in (x, y)):
                raise Bail("the hash is not determined")
            if not b:
                out.append((s, True))
                continue
            cur = [(s, len(x[2]) == len(y[2]))]
            for p, q in zip(x[2], y[2]):
                cur = [(u, r and e) for t, r in cur for u, e in (hash_entry(c, t, p, q) if r else [(t, False)])]
            out += cur
        return out
    return lambda c, st, got: [(st, Pred(f, "equal hashes of equal values"))]


def alike(c, st, got):
    """Two parts of the result that are the same."""
    def f(c, st, got):
        x, y = items(c, st, got)
        return [(st, st.res(c.I.snapshot(st, x)) == st.res(c.I.snapshot(st, y)))]
    return [(st, Pred(f, "the same twice"))]


def alike_some(langs):
    """As `alike`, where every text argument belongs to its language; no result otherwise."""
    def f(c, st, got):
        cur = [(st, True)]
        for i, l in enumerate(langs):
            cur = [(u, b and r) for t, b in cur for u, r in split_by_dfa(t, tuple(c.s(t, i)), l)]
        return [(t, Pred(lambda c, st, g: [(s, n == "Some" and alike_now(c, s, x[0])) for s, n, x in opened(c, st, g)], "the same twice")
                 if b else NONE) for t, b in cur]
    return f


def alike_now(c, st, v):
    x, y = items(c, st, v)
    return st.res(c.I.snapshot(st, x)) == st.res(c.I.snapshot(st, y))


def coll_eq(n):
    """(==, !=) of the collection of the first n arguments and that of the others."""
    def f(c, st, got):
        a, b = c.args[:n], c.args[n:]
        cur = [(st, len(a) == len(b))]
        for x, y in zip(a, b):
            cur = [(u, e) for t, r in cur for u, e in (eq(c, t, x, y) if r else [(t, False)])]
        return [(t, tup(r, not r)) for t, r in cur]
    return f


def compared_only(c, st, got):
    """As `compared`; what equality is, is decided elsewhere."""
    def f(c, st, got):
        x, y, p, e = items(c, st, got)
        x, y = order_of(c, st, x), order_of(c, st, y)
        return [(t, y == 2 - x and n == "Some" and order_of(c, t, z[0]) == x and b == (x == EQUAL))
                for s, n, z in opened(c, st, p) for t, b in c.I.truth(s, e)]
    return [(st, Pred(f, "a comparison that is the same both ways round and agrees with equality"))]


def mentions_address(v):
    return isinstance(v, tuple) and (v[:1] in (("ref",), ("box",)) or any(mentions_address(x) for x in v))


# ------------------------------------------------------------------------------------ printed forms
def shown(pre, post, i=0):
    """(text of the argument, its printed form)"""
    return fixed(lambda c, st: tup(text(btext(c, st, i)), text((pre,) * bool(pre) + tuple(btext(c, st, i)) + (post,) * bool(post))))


def around(pre, post):
    """(printed form of the inner value, printed form)"""
    def f(c, st, got):
        inner = MC.unbox(c.I, st, items(c, st, got)[0])
        return [(st, tup(ANY, text((pre,) + tuple(inner[1]) + (post,))))]
    return f


def st_show(c, st, got):
    s, p, o = (tuple(MC.unbox(c.I, st, x)[1]) for x in items(c, st, got)[:3])
    ip = tuple(btext(c, st, 0)) if False else None
    return [(st, tup(ANY, ANY, ANY, text(s + (" ",) + p + (" ",) + o)))]


def same_show(c, st, got):
    """The object prints as the literal it holds, in both forms."""
    a, b, x, y = items(c, st, got)
    return [(st, tup(ANY, a, ANY, x))]


BARE = ("Boolean", "Long", "Int", "Short", "Byte", "UnsignedLong", "UnsignedInt", "UnsignedShort", "UnsignedByte", "Float",
        "Double", "Decimal")


def lit_show(c, st, got):
    """(view, data type's IRI printed, language printed, printed, printed with '#')"""
    v, d, l = items(c, st, got)[:3]
    lex, dt, lang = items(c, st, v)[:3]
    lex = tuple(MC.unbox(c.I, st, lex)[1])
    out = []
    for s, dn, dx in opened(c, st, dt):
        for t, ln, lx in opened(c, s, lang):
            if dn == "Some" and ln == "Some":
                # cannot be made: no constructor gives both
                out.append((t, ANY))
            elif dn == "Some":
                shown = tuple(MC.unbox(c.I, t, MC.unbox(c.I, t, d)[3][0])[1])
                for u, n, _ in opened(c, t, dx[0]):
                    long = text(('"',) + lex + ('"^^',) + shown)
                    angle = text(("<",) + lex + (">",))
                    out.append((u, tup(ANY, ANY, ANY, angle if n == "Iri" else text(lex) if n in BARE else long,
                                       angle if n == "Iri" else long)))
            elif ln == "Some":
                tag = tuple(MC.unbox(c.I, t, MC.unbox(c.I, t, l)[3][0])[1])
                x = text(('"',) + lex + ('"@',) + tag)
                out.append((t, tup(ANY, ANY, ANY, x, x)))
            else:
                x = text(('"',) + lex + ('"',))
                out.append((t, tup(ANY, ANY, ANY, x, x)))
    return out


def coll_show_1(c, st, got):
    a = MC.unbox(c.I, st, items(c, st, got)[0])
    return [(st, tup(ANY, text(("( ",) + tuple(a[1]) + (" )",))))]


def coll_show_2(c, st, got):
    a, b = tuple(btext(c, st, 0)), tuple(btext(c, st, 1))
    return [(st, tup(text(a), text(b), text(("( _:",) + a + (" _:",) + b + (" )",))))]


# ------------------------------------------------------------------------------------ collections
def coll(*es):
    return tup(len(es), not es, arr(*es))


def coll_of(kind, i=0):
    return fixed(lambda c, st: coll(node(c, OBJ, kind, c.args[i])))


def coll_args(n):
    return fixed(lambda c, st: coll(*c.args[:n]))


# ------------------------------------------------------------------------------------ statements
def triple(c, st, i=0):
    return tup(*items(c, st, c.args[i]))


def st_set(k):
    def f(c, st, got):
        t = list(triple(c, st)[1])
        t[k] = c.args[1]
        return [(st, tup(*t))]
    return f


def st_nested(c, st, got):
    s, p, o = triple(c, st)[1]
    return [(u, tup(n == "Statement", m == "Statement", "Statement" in (n, m)))
            for t, n, _ in opened(c, st, s) for u, m, _ in opened(c, t, o)]


# ------------------------------------------------------------------------------------ data types
def xsd_names():
    return {"Iri": "anyURI", "Base64Binary": "base64Binary", "Boolean": "boolean", "Date": "date", "DateTime": "dateTime",
            "Decimal": "decimal", "Double": "double", "Duration": "duration", "Float": "float", "HexBinary": "hexBinary",
            "QName": "QName", "String": "string", "Time": "time", "Long": "long", "Int": "int", "Short": "short",
            "Byte": "byte", "UnsignedLong": "unsignedLong", "UnsignedInt": "unsignedInt", "UnsignedShort": "unsignedShort",
            "UnsignedByte": "unsignedByte", "Language": "language", "Name": "Name"}


def dt_text(n, qname=False):
    if n == "XmlLiteral":
        return ("rdf:" if qname else RDF) + "XMLLiteral"
    t = xsd_names().get(n)
    return None if t is None else ("xsd:" if qname else XSD) + t


def dt_case(qname):
    def f(c, st, got):
        out = []
        for s, n, x in opened(c, st, c.args[0]):
            t = dt_text(n, qname)
            if t is None and n != "Other":
                out.append((s, ANY))
            else:
                out.append((s, tup(ANY, text((t,) if t is not None else MC.text_of(c.I, s, x[0])))))
        return out
    return f


def dt_known(c, st, segs):
    """[(st, variant name or None)]: the data type with this IRI."""
    out, cur = [], [st]
    for n in list(xsd_names()) + ["XmlLiteral"]:
        nxt = []
        for s in cur:
            for t, b in c.I.str_eq(s, segs, (dt_text(n),)):
                (out if b else nxt).append((t, n) if b else t)
        cur = nxt
    return out + [(s, None) for s in cur]


def dt_round(c, st, got):
    out = []
    for s, n, x in opened(c, st, c.args[0]):
        if n != "Other":
            out.append((s, tup(ANY, node(c, DTYPE, n))))
            continue
        segs = MC.text_of(c.I, s, x[0])
        for t, k in dt_known(c, s, segs):
            out.append((t, tup(ANY, node(c, DTYPE, k) if k else node(c, DTYPE, "Other", x[0]))))
    return out


def dt_of_iri(c, st, got):
    return [(st, tup(c.args[0], c.args[0]))]


# ------------------------------------------------------------------------------------ literals
def lv(lex, dt, lang):
    return tup(lex, dt, lang, dt != NONE, lang != NONE)


def one(c, dt, i=0):
    """(view, the value's text) of a literal made from a native value."""
    def f(c, st, got):
        x = items(c, st, got)[1]
        return [(st, tup(lv(x, some(node(c, DTYPE, dt)), NONE), ANY))]
    return f


def native(dt):
    return one(None, dt)


def lit_text(i, first=None, second=None):
    """(view, view) of two literals made from the same text: the same lexical form, the text where nothing is to escape."""
    def f(c, st, got):
        s = MC.text_of(c.I, st, c.args[i]) or ()
        x, y = items(c, st, got)
        lex = MC.unbox(c.I, st, items(c, st, x)[0])
        out = []
        for t, safe in split_by_dfa(st, tuple(s), MC.SAFE):
            l = text(t.resolve(tuple(s))) if safe else lex
            out.append((t, tup(lv(l, *typed(c, first)), lv(l, *typed(c, second)))))
        return out
    return f


def typed(c, k):
    """(data type option, language option)"""
    if k is None:
        return NONE, NONE
    if k[0] == "lang":
        return NONE, some(c.args[k[1]])
    if k[0] == "arg":
        return some(c.args[k[1]]), NONE
    return some(node(c, DTYPE, k[1])), NONE


def same_form(dt):
    """Some((view of the literal, view of the plain literal of the same text))"""
    def f(c, st, got):
        out = []
        for s, n, x in opened(c, st, got):
            if n == "None":
                out.append((s, NONE))
                continue
            a, b = items(c, s, x[0])
            lex = items(c, s, b)[0]
            out.append((s, some(tup(lv(lex, *typed(c, ("dt", dt))), lv(lex, NONE, NONE)))))
        return out
    return f


def same_form_plain(dt):
    def f(c, st, got):
        a, b = items(c, st, got)
        lex = items(c, st, b)[0]
        return [(st, tup(lv(lex, *typed(c, ("dt", dt))), lv(lex, NONE, NONE)))]
    return f


def lit_name_some(dt, langs):
    """The result is Some exactly when the texts are valid, and then as same_form says."""
    def f(c, st, got):
        cur = [(st, True)]
        for i, l in enumerate(langs):
            nxt = []
            for s, b in cur:
                nxt += split_by_dfa(s, tuple(c.s(s, i)), l) if b else [(s, False)]
            cur = nxt
        out = []
        for s, b in cur:
            if not b:
                out.append((s, NONE))
                continue
            for t, n, x in opened(c, s, got):
                out += same_form(dt)(c, t, got) if n == "Some" else [(t, some(ANY))]
        return out
    return f


def lit_typed_iri(c, st, got):
    segs = MC.text_of(c.I, st, c.args[1])
    v, d = items(c, st, got)
    lex = items(c, st, v)[0]
    out = []
    for s, k in dt_known(c, st, segs):
        e = node(c, DTYPE, k) if k else node(c, DTYPE, "Other", c.args[1])
        for t, safe in split_by_dfa(s, tuple(c.s(s, 0)), MC.SAFE):
            out.append((t, tup(lv(c.args[0] if safe else lex, some(e), NONE), e)))
    return out


def own_text(dt, i=0):
    """(view of the literal, the plain literal of the same text): the text as it is."""
    def f(c, st, got):
        b = items(c, st, got)[1]
        lex = items(c, st, b)[0]
        return [(st, tup(lv(text(MC.text_of(c.I, st, c.args[i])), *typed(c, ("dt", dt))), lv(lex, NONE, NONE)))]
    return f


def some_args(*n):
    return lambda c, st, got: [(st, some(arr(*[c.args[i] for i in n])))]


def some_arg(c, st, got):
    return [(st, some(c.args[0]))]


def hex_text(c, st, got):
    """A text of hexadecimal digits by pairs decodes, other texts do not (but for the space between pairs)."""
    n = len(c.args)
    cur = [(st, True)]
    for a in c.args:
        nxt = []
        for s, b in cur:
            nxt += split_by_dfa(s, (a[1],), R.cset(MC.ANYHEX)) if b else [(s, False)]
        cur = nxt
    out = []
    for s, b in cur:
        if b and n % 2 == 0:
            out.append((s, some(ANY)))
        else:
            out.append((s, NONE))
    return out


PRINTABLE = R.cset(R.CharSet.of([(0x21, 0x7E), (0xC0, 0x24F), (0x4E00, 0x9FA5), (0x1F600, 0x1F64F)]).minus(R.CharSet.chars("\"\\")))


def printable(c, st0):
    cur = [st0]
    for a in c.args:
        cur = [t for s in cur for t, b in split_by_dfa(s, (a[1],), PRINTABLE) if b]
    return cur


def not_hex(c, st0):
    out = []
    for st in literal_arg(0)(c, st0):
        v = MC.unbox(c.I, st, c.args[0])
        for s, n, x in opened(c, st, v[3][1]):
            if n == "None":
                out.append(s)
            else:
                out += [t for t, k, _ in opened(c, s, x[0]) if k != "HexBinary"]
    return out


def lit_to_bytes(c, st, got):
    v, b = items(c, st, got)
    out = []
    for s, n, x in opened(c, st, items(c, st, v)[1]):
        if n == "None":
            out.append((s, tup(ANY, False)))
            continue
        for t, k, _ in opened(c, s, x[0]):
            out.append((t, tup(ANY, ANY if k == "Base64Binary" else False)))
    return out


def same_text(dt):
    """(view, text): the lexical form is the text."""
    def f(c, st, got):
        t = items(c, st, got)[1]
        return [(st, tup(lv(t, *typed(c, ("dt", dt))), ANY))]
    return f


def lit_safe(c, st, got):
    return [(st, arr(*[lv(text((t,) if t else ()), NONE, NONE) for t in ("", "a b", 'a\\"b\\\\c\\nd\\te\'')]))]


def lit_secs(c, st, got):
    n = items(c, st, got)[1]
    return [(st, tup(lv(text(("PT",) + tuple(n[1]) + ("S",)), some(node(c, DTYPE, "Duration")), NONE), ANY))]


def lit_nanos(c, st, got):
    z, t, n = items(c, st, got)[2:]
    out = []
    for s, b in c.I.truth(st, z):
        x = tuple(t[1]) if b else tuple(t[1]) + (".",) + tuple(n[1])
        v = lv(text(("PT",) + x + ("S",)), some(node(c, DTYPE, "Duration")), NONE)
        out.append((s, tup(v, v, ANY, ANY, ANY)))
    return out


def not_both(c, st, v):
    """[st]: a literal with a data type has no language."""
    v = MC.unbox(c.I, st, v)
    out = []
    for s, n, _ in opened(c, st, v[3][1]):
        for t, m, _ in opened(c, s, v[3][2]):
            if "None" in (n, m):
                out.append(t)
    return out


def literal_arg(*idx):
    def f(c, st0):
        cur = [st0]
        for i in idx:
            cur = [t for s in cur for t in not_both(c, s, c.args[i])]
        return cur
    return f


def agree(c, st, got):
    """Comparison with a native value is comparison with the literal made from it."""
    x, y = items(c, st, got)
    return [(st, tup(y, ANY))]


def bytes_of(c, st, got):
    out = []
    for s, n, _ in opened(c, st, c.args[0]):
        out.append((s, some(arr(0xAB, 0xCD)) if n == "HexBinary" else ANY if n == "Base64Binary" else NONE))
    return out


def agree_text(c, st, got):
    """A literal without type or of type string is the text that is its lexical form."""
    x, y, z = items(c, st, got)
    return [(t, tup(z if b else False, ANY, ANY)) for t, b in c.I.truth(st, y)]


def agree_some(c, st, got):
    out = []
    for s, n, x in opened(c, st, got):
        if n == "None":
            out.append((s, NONE))
        else:
            b = items(c, s, x[0])[1]
            out.append((s, some(tup(b, b))))
    return out


def all_true(n):
    return lambda c, st, got: [(st, tup(*[True] * n) if n > 1 else True)]


def some_true(langs):
    def f(c, st, got):
        cur = [(st, True)]
        for i, l in enumerate(langs):
            nxt = []
            for s, b in cur:
                nxt += split_by_dfa(s, tuple(c.s(s, i)), l) if b else [(s, False)]
            cur = nxt
        return [(s, some(True) if b else NONE) for s, b in cur]
    return f


def lit_to_iri(c, st, got):
    v, b = items(c, st, got)
    out = []
    for s, n, x in opened(c, st, items(c, st, v)[1]):
        if n == "None":
            out.append((s, tup(ANY, False)))
            continue
        for t, k, _ in opened(c, s, x[0]):
            out.append((t, tup(ANY, ANY if k == "Iri" else False)))
    return out


def lit_eq(c, st, got):
    return [(s, tup(ANY, ANY, b, not b)) for s, b in eq(c, st, c.args[0], c.args[1])]


# ------------------------------------------------------------------------------------ graphs
def insert(c, st, u, g, t):
    """[(st, graph)]: a unique graph holds equal statements once."""
    if not u:
        return [(st, g + (t,))]
    return [(s, g if i is not None else g + (t,)) for s, i in MC.search(c.I, st, g, t)]


def build(c, st, u, ts, g=()):
    """[(st, unique?, elements)]"""
    out = []
    for s, b in c.I.truth(st, u):
        cur = [(s, tuple(g))]
        for t in ts:
            cur = [y for w, x in cur for y in insert(c, w, b, x, t)]
        out += [(w, b, x) for w, x in cur]
    return out


def bag(xs, what="the statements"):
    xs = tuple(xs)

    def f(c, st, got):
        return MC.same_bag(c.I, st, items(c, st, got), xs)
    return Pred(f, "(in any order) %d of %s" % (len(xs), what))


def listed(c, st, xs):
    return bag(xs, "these: " + ", ".join(short(c, st, x) for x in xs))


def short(c, st, v):
    from spec import describe
    return describe(v, st, c.I)


def gv(c, st, name, xs, unique):
    """The view of a graph: name, is named, length, empty, statements, may hold duplicates."""
    return tup(name, name != NONE, len(xs), not xs, listed(c, st, xs), not unique)


def gv_pred(name):
    return name


def triples(c, st, *idx):
    return [triple(c, st, i) for i in idx]


def built(idx, u=0, name=None, unique=None, more=None):
    """The graph of the triples among the arguments."""
    def f(c, st, got):
        n = NONE if name is None else some(c.args[name])
        return [(s, gv(c, s, n, g, b)) for s, b, g in
                build(c, st, c.args[u] if unique is None else unique, triples(c, st, *idx))]
    return f


def merged(c, st, got):
    out = []
    for s, b, g in build(c, st, c.args[0], triples(c, st, 2, 3)):
        for t, v, h in build(c, s, c.args[1], triples(c, st, 3)):
            out.append((t, tup(gv(c, t, NONE, g, b), gv(c, t, NONE, h, v))))
    return out


def cloned(c, st, got):
    out = []
    for s, b, g in build(c, st, c.args[0], triples(c, st, 1)):
        for t, h in insert(c, s, b, g, triple(c, st, 2)):
            out.append((t, tup(gv(c, t, NONE, g, b), gv(c, t, NONE, h, b))))
    return out


def keep_if(c, st, g, test):
    """[(st, kept, dropped)] by a predicate on the elements."""
    cur = [(st, (), ())]
    for e in g:
        nxt = []
        for s, k, d in cur:
            for t, b in test(s, e):
                nxt.append((t, k + (e,), d) if b else (t, k, d + (e,)))
        cur = nxt
    return cur


def removed(idx, x):
    def f(c, st, got):
        t0 = triple(c, st, x)
        return [(t, gv(c, t, NONE, d, b)) for s, b, g in build(c, st, c.args[0], triples(c, st, *idx))
                for t, k, d in keep_if(c, s, g, lambda z, e: eq(c, z, e, t0))]
    return f


def removed_for(idx, x):
    return lambda c, st, got: [(t, tup(listed(c, t, k), gv(c, t, NONE, d, b)))
                               for s, b, g in build(c, st, c.args[0], triples(c, st, *idx))
                               for t, k, d in keep_if(c, s, g, lambda z, e: eq(c, z, e[1][0], c.args[x]))]


def removed_then(c, st, got):
    """Two statements inserted, one removed, one inserted, one removed."""
    x, y, z = (triple(c, st, i) for i in (3, 4, 5))
    out = []
    for s, b, g in build(c, st, c.args[0], triples(c, st, 1, 2)):
        for t, _, d in keep_if(c, s, g, lambda q, e: eq(c, q, e, x)):
            for u, h in insert(c, t, b, d, y):
                for w, _, k in keep_if(c, u, h, lambda q, e: eq(c, q, e, z)):
                    out.append((w, gv(c, w, NONE, k, b)))
    return out


def merged_2(c, st, got):
    """A graph of one statement merged with a graph of two, and the latter unchanged."""
    out = []
    for s, b, g in build(c, st, c.args[1], triples(c, st, 3, 4)):
        for t, u in c.I.truth(s, c.args[0]):
            for w, _, h in build(c, t, u, list(g), (triple(c, t, 2),)):
                out.append((w, tup(gv(c, w, NONE, h, u), gv(c, w, NONE, g, b))))
    return out


def named_built(idx, u=0, n=1, m=2):
    """The graph of the triples, its name, and its mappings twice (before and after)."""
    def f(c, st, got):
        return [(s, tup(gv(c, s, some(c.args[n]), g, b), c.args[m], c.args[m]))
                for s, b, g in build(c, st, c.args[u], triples(c, st, *idx))]
    return f


def named_removed(c, st, got):
    x = triple(c, st, 4)
    out = []
    for s, b, g in build(c, st, c.args[0], triples(c, st, 3)):
        for t, k, d in keep_if(c, s, g, lambda z, e: eq(c, z, e, x)):
            out.append((t, tup(gv(c, t, some(c.args[1]), d, b), c.args[2], c.args[2])))
    return out


def named_removed_for(c, st, got):
    out = []
    for s, b, g in build(c, st, c.args[0], triples(c, st, 3)):
        for t, k, d in keep_if(c, s, g, lambda z, e: eq(c, z, e[1][0], c.args[4])):
            out.append((t, tup(gv(c, t, some(c.args[1]), d, b), c.args[2], c.args[2])))
    return out


def named_merged(c, st, got):
    return [(s, tup(gv(c, s, some(c.args[1]), g, b), c.args[2], c.args[2], c.args[3], c.args[3]))
            for s, b, g in build(c, st, c.args[0], triples(c, st, 4))]


def named_dedup(c, st, got):
    out = []
    for s, b, g in build(c, st, c.args[0], triples(c, st, 3, 4)):
        for t, k in distinct(c, s, g):
            out.append((t, tup(gv(c, t, some(c.args[1]), k, b), c.args[2], c.args[2])))
    return out


def merged_of(left, right, ln=None, rn=None, w=1):
    """Two graphs of these triples merged, and the second unchanged."""
    def f(c, st, got):
        out = []
        for s, b, h in build(c, st, c.args[w], triples(c, st, *right)):
            for t, u in c.I.truth(s, c.args[0]):
                for z, _, g in build(c, t, u, triples(c, t, *left) + list(h)):
                    l, r = (NONE if i is None else some(c.args[i]) for i in (ln, rn))
                    out.append((z, tup(gv(c, z, l, g, u), gv(c, z, r, h, b))))
        return out
    return f


def removed_one(c, st, got):
    x = triple(c, st, 3)
    out = []
    for s, b, g in build(c, st, c.args[0], triples(c, st, 2)):
        for t, n in option(c, s, c.args[1]):
            for w, k, d in keep_if(c, t, g, lambda z, e: eq(c, z, e, x)):
                out.append((w, gv(c, w, NONE if n is None else some(n), d, b)))
    return out


def removed_keeps(c, st, got):
    x = c.args[4]
    out = []
    for s, b, g in build(c, st, c.args[0], triples(c, st, 2)):
        for t, k, d in keep_if(c, s, g, lambda z, e: eq(c, z, e[1][0], x)):
            y = triple(c, st, 3)
            for w, _, h in build(c, t, b, [y, y], d):
                out.append((w, gv(c, w, some(c.args[1]), h, b)))
    return out


def dedup(u, idx):
    def f(c, st, got):
        out = []
        for s, b, g in build(c, st, c.args[u] if u is not None else False, triples(c, st, *idx)):
            cur = [(s, (), ())]
            for e in g:
                cur = [(t, k + (e,), d) if i is None else (t, k, d + (e,))
                       for w, k, d in cur for t, i in MC.search(c.I, w, k, e)]
            out += [(w, tup(listed(c, w, d), gv(c, w, NONE, k, b))) for w, k, d in cur]
        return out
    return f


def dedup_insert(c, st, got):
    x = triple(c, st, 1)
    return [(s, gv(c, s, NONE, (x,) if b else (x, x), b)) for s, b in c.I.truth(st, c.args[0])]


def graph_features_at(i):
    def f(c, st, got):
        out = []
        x = c.args[-1]
        for s, u in c.I.truth(st, c.args[i]):
            for t, d in eq(c, s, x, iri_of("http://rust-rdftk.dev/feature/graph/duplicates")):
                for w, r in eq(c, t, x, iri_of("http://rust-rdftk.dev/feature/graph/rdf_star")):
                    out.append((w, tup(d and not u or r, arr(d, r))))
        return out
    return f


graph_features = graph_features_at(0)


FEATURE = "http://rust-rdftk.dev/feature/"
INDEXES = ("subject predicate object subject_predicate subject_predicate_object subject_object predicate_object graph "
           "subject_graph predicate_graph object_graph subject_predicate_graph subject_predicate_object_graph "
           "subject_object_graph predicate_object_graph").split()
FEATURES = {"combined_default": "model.data_set/combined_default", "stmt_subject_collections": "statements/subject_collections",
            "stmt_object_collections": "statements/object_collections", "graph_allows_named": "graph/named",
            "graph_duplicates": "graph/duplicates", "rdf_star": "graph/rdf_star", "n3_formulae": "graph/n3_formulae"}
FEATURES.update(("idx_" + i, "index/" + i) for i in INDEXES)


def announces(*features):
    """A type's features among RDF-star and collections as objects; it has no others."""
    def f(c, st, got):
        out = []
        x = c.args[-1]
        for s, r in eq(c, st, x, iri_of(FEATURE + FEATURES["rdf_star"])):
            for t, o in eq(c, s, x, iri_of(FEATURE + FEATURES["stmt_object_collections"])) if not r else [(s, False)]:
                out.append((t, tup(r and "star" in features or o and "coll" in features, arr(r, o))))
        return out
    return f


# ------------------------------------------------------------------------------------ errors
ERR = "rdftk_core::error::Error"


def err_made(name, *idx):
    """The error of this kind, with the arguments as its contents."""
    def f(c, st, got):
        return [(st, node(c, ERR, name, *[text(c.s(st, i)) if is_str(c.I.deref_all(st, c.args[i])) else c.args[i] for i in idx]))]
    return f


def err_result(c, st, got):
    return [(st, MC.err(c.args[0]))]


def err_unknown(c, st, got):
    t = items(c, st, got)[1]
    return [(st, tup(node(c, ERR, "Unknown", t), ANY))]


WRAPPED = "Borrow Io Iri LanguageTag Name Utf8 Base64Decoder".split()


def err_wrapped(c, st, got):
    """The source is the error that is wrapped, where one is."""
    out = []
    for s, n, x in opened(c, st, c.args[0]):
        if n in WRAPPED:
            out.append((s, some(x[0])))
        elif n == "Tokenizer":
            out.append((s, some(MC.unbox(c.I, s, x[1]))))
        else:
            out.append((s, NONE))
    return out


def mentions(c, st, segs, x):
    """Where the text has the value's text or printed form among its parts; None if nowhere."""
    x = c.I.deref_all(st, x)
    segs = list(segs)
    if is_str(x):
        y = st.resolve(x[1])
        if all(z in segs for z in y):
            return min((segs.index(z) for z in y), default=0)
    def bare(y):
        while type(y) is tuple and len(y) == 2 and y[0] == "&":
            y = y[1]
        return y

    want = bare(st.res(c.I.snapshot(st, x)))
    for at, z in enumerate(segs):
        kind, _, i = ("" if isinstance(z, str) else getattr(z, "n", "")).rpartition("#")
        if kind in c.I.terms and i.isdigit() and any(bare(y) == want for y in c.I.terms[kind][int(i)]):
            return at
    return None


# the errors whose parts mean nothing without their order
IN_ORDER = ("InvalidLiteralTypeCooercion", "ProviderMismatch", "HexDecoder", "InvalidFromStr")


def err_shown(c, st, got):
    """The message has everything the error carries, and that of the error it wraps."""
    def f(c, st, g):
        g = c.I.deref_all(st, g)
        segs = st.resolve(g[1][1][1])
        cur = [(st, bool(segs), c.args[0])]
        out = []
        while cur:
            s, b, v = cur.pop()
            for t, n, x in opened(c, s, v):
                todo = [y for y in x if not (is_opq(y) and repo_type(c, y) or is_adt(y) and y[1].startswith("rdftk_"))]
                deeper = [y for y in x if y not in todo]
                at = [mentions(c, t, segs, y) for y in todo]
                ok = b and None not in at and (n not in IN_ORDER or len(set(at)) < len(at) or at == sorted(at))
                if deeper:
                    cur.append((t, ok, deeper[0]))
                else:
                    out.append((t, ok))
        return out
    return [(st, Pred(f, "a message with the contents of the error"))]


def repo_type(c, v):
    return isinstance(v[2], int) and c.I.p.tys[v[2]]["name"].startswith("rdftk_")


def err_obs(c, st, got):
    return tup(got, st.mem[("S", "out")])


def trace(n):
    """One numbered line per error of the chain, outermost first (empty lines at the end do not matter)."""
    def f(c, st, got):
        t, *msgs = items(c, st, got)
        end = st.resolve(t[1])[-1:]
        segs = ()
        for i, m in enumerate(msgs):
            segs += ("%d. " % (i + 1),) + tuple(m[1]) + ("\n",)
        blank = 0
        if end and isinstance(end[0], str):
            blank = len(end[0]) - len(end[0].rstrip("\n"))
        full = st.resolve(segs)
        had = len(full[-1]) - len(full[-1].rstrip("\n"))
        if blank > had:
            segs += ("\n" * (blank - had),)
        return [(st, tup(text(segs), *[ANY] * n))]
    return f


def err_bnode(c, st, got):
    return [(s, some(node(c, ERR, "InvalidBlankNodeName", text(s.resolve(c.s(s, 0))))) if n is None else NONE)
            for s, n in blank_text(c, st, c.s(st, 0))]


def err_coerce(*fine):
    """A literal of another type does not convert, and the error names both types."""
    def f(c, st, got):
        d, shown, to, is_err, e = items(c, st, got)
        out = []
        for s, n, x in opened(c, st, d):
            if n == "None":
                out.append((s, tup(ANY, ANY, ANY, True, some(tup(text(("rdf:PlainLiteral",)), to)))))
                continue
            for t, k, _ in opened(c, s, x[0]):
                if k in fine:
                    out.append((t, tup(ANY, ANY, ANY, ANY, NONE)))
                else:
                    for w, _n, y in opened(c, t, shown):
                        out.append((w, tup(ANY, ANY, ANY, True, some(tup(y[0], to)))))
        return out
    return f


def err_hex(c, st, got):
    """The first pair that is not two hexadecimal digits is named, with its place."""
    cur = [(st, None)]
    for i in range(0, len(c.args), 2):
        pair = c.args[i:i + 2]
        nxt = []
        for s, e in cur:
            if e is not None:
                nxt.append((s, e))
                continue
            ok = [(s, len(pair) == 2)]
            for a in pair:
                ok = [y for t, b in ok for y in (split_by_dfa(t, (a[1],), R.cset(MC.ANYHEX)) if b else [(t, False)])]
            nxt += [(t, None if b else (tuple(a[1] for a in pair), i // 2)) for t, b in ok]
        cur = nxt
    return [(s, NONE if e is None else some(node(c, ERR, "HexDecoder", text(s.resolve(e[0])), e[1]))) for s, e in cur]


def distinct(c, st, xs):
    cur = [(st, ())]
    for x in xs:
        cur = [(t, k + (x,) if i is None else k) for s, k in cur for t, i in MC.search(c.I, s, k, x)]
    return cur


def option(c, st, v):
    """[(st, value or None)] of an optional argument."""
    return [(s, x[0] if n == "Some" else None) for s, n, x in opened(c, st, v)]


def select(idx, test=None, pick=lambda e: e):
    """The set of what is picked from the statements that pass the test."""
    def f(c, st, got):
        out = []
        for s, b, g in build(c, st, c.args[0], triples(c, st, *idx)):
            for t, k, _ in keep_if(c, s, g, (lambda z, e: test(c, z, e)) if test else lambda z, e: [(z, True)]):
                for w, r in distinct(c, t, [pick(e) for e in k]):
                    out.append((w, listed(c, w, r)))
        return out
    return f


def pattern(i):
    """Test for the pattern in the arguments i, i + 1, i + 2 (each open or given)."""
    def test(c, st, e):
        cur = [(st, True)]
        for k in range(3):
            nxt = []
            for s, b in cur:
                if not b:
                    nxt.append((s, False))
                    continue
                for t, v in option(c, s, c.args[i + k]):
                    nxt += [(t, True)] if v is None else eq(c, t, e[1][k], v)
            cur = nxt
        return cur
    return test


def part(k, i):
    return lambda c, st, e: eq(c, st, e[1][k], c.args[i])


def parts(*ks):
    return lambda c, st, e: true_if(c, st, [(e[1][k], c.args[i]) for k, i in ks])


def kind_test(want):
    return lambda c, st, e: [(s, (n == "Blank") == want) for s, n, _ in opened(c, st, e[1][0])]


def contains(idx, x):
    def f(c, st, got):
        out = []
        for s, b, g in build(c, st, c.args[0], triples(c, st, *idx)):
            for t, i in MC.search(c.I, s, g, triple(c, st, x)):
                out.append((t, tup(i is not None, i is not None)))
        return out
    return f


def contains_subject(c, st, got):
    out = []
    for s, b, g in build(c, st, c.args[0], triples(c, st, 1, 2)):
        out += [(t, i is not None) for t, i in MC.search(c.I, s, [e[1][0] for e in g], c.args[3])]
    return out


# ------------------------------------------------------------------------------------ generated names
def fresh_texts(c, st, v, out=None):
    """The generated texts in a value, in order of appearance."""
    out = [] if out is None else out
    v = MC.unbox(c.I, st, v)
    if is_str(v):
        s = st.resolve(v[1])
        if MC.fresh_in(s) and s not in out:
            out.append(s)
    elif is_adt(v):
        for x in v[3]:
            fresh_texts(c, st, x, out)
    elif isinstance(v, tuple) and v and v[0] in ("tup", "arr"):
        for x in v[1]:
            fresh_texts(c, st, x, out)
    return out


class Holes:
    """Generated names of an expectation: placeholders to be matched with the code's names."""
    def __init__(self):
        self.n = 0

    def new(self):
        self.n += 1
        return ("hole", self.n - 1)


def fill(c, v, names):
    if type(v) is tuple:
        if v[:1] == ("hole",) and len(v) == 2:
            return names[v[1]]
        return tuple(fill(c, x, names) for x in v)
    return v


def hole_subject(c, h):
    return ("adt", SUBJ, variants(c, SUBJ)["Blank"], (("adt", BNODE, 0, (("adt", MC.NAME_T, 0, (("str", h),)),)),))


def hole_object(c, h):
    return ("adt", OBJ, variants(c, OBJ)["Blank"]) + hole_subject(c, h)[3:]


def hole_iri(c, ty, h):
    return ("adt", ty, variants(c, ty)["Resource"], (("adt", MC.IRI, 0, (("str", h),)),))


def upto_names(exp, n, what):
    """Equal to an expectation for some choice of its n generated names: a predicate on the code's result.

    `exp` is a value with a ("bag", elements) in it or several, compared in any order."""
    def f(c, st, got):
        have = fresh_texts(c, st, got)
        if len(have) != n:
            return [(st, False)]
        cur, out = [st], []
        for p in permutations(have) if n < 7 else [likely(c, st, got, exp, have)]:
            nxt = []
            for s in cur:
                for t, b in compare(c, s, got, fill(c, exp, p)):
                    if b:
                        out.append((t, True))
                    else:
                        nxt.append(t)
            cur = nxt
        return out + [(s, False) for s in cur]
    return Pred(f, what)


def likely(c, st, got, exp, have):
    """The generated names in the order of the holes they can stand for, going by what else is in the
    elements they are in.  Many names are used only where everything else is distinct and known."""
    def plain(v, me):
        v = MC.unbox(c.I, st, v)
        if isinstance(v, tuple) and v[:1] == ("hole",) and len(v) == 2:
            return "@" if v == me else "*"
        if is_str(v):
            if v[1][:1] == ("hole",):
                return plain(v[1], me)
            s = st.resolve(v[1])
            return ("@" if s == me else "*") if MC.fresh_in(s) else ("str", s)
        if is_adt(v):
            return ("adt",) + v[1:3] + tuple(plain(x, me) for x in v[3])
        if isinstance(v, tuple) and v and v[0] in ("tup", "arr"):
            return (v[0],) + tuple(plain(x, me) for x in v[1])
        return v

    def holes(v, out):
        if type(v) is tuple:
            if v[:1] == ("hole",) and len(v) == 2:
                out.add(v)
            else:
                for x in v:
                    holes(x, out)
        return out

    def elements(v, e):
        if isinstance(e, tuple) and e[:1] == ("bag",):
            return [(x, None) for x in items(c, st, v)] + [(None, x) for x in e[1]]
        if isinstance(e, tuple) and e[:1] == ("tup",):
            return [y for x, z in zip(items(c, st, v), e[1]) if z != ANY for y in elements(x, z)]
        return []
    seen = {}
    for x, e in elements(got, exp):
        for me in fresh_texts(c, st, x) if e is None else holes(e, set()):
            seen.setdefault(me, []).append(repr(plain(x if e is None else e, me)))
    names = {}
    for m in have:
        names.setdefault(tuple(sorted(seen.get(m, ()))), []).append(m)
    out = []
    for i in range(len(have)):
        k = names.get(tuple(sorted(seen.get(("hole", i), ()))))
        out.append(k.pop(0) if k else None)
    left = [m for m in have if m not in out]
    return [m if m is not None else left.pop(0) for m in out]


def compare(c, st, got, exp):
    if isinstance(exp, tuple) and exp[:1] == ("bag",):
        return MC.same_bag(c.I, st, items(c, st, got), exp[1])
    if exp == ANY:
        return [(st, True)]
    if isinstance(exp, tuple) and exp[:1] == ("tup",) and any(x == ANY or isinstance(x, tuple) and x[:1] in (("bag",), ("tup",))
                                                            for x in exp[1]):
        xs = items(c, st, got)
        if len(xs) != len(exp[1]):
            raise Bail("shape of the result")
        cur = [(st, True)]
        for x, e in zip(xs, exp[1]):
            cur = [y for s, b in cur for y in (compare(c, s, x, e) if b else [(s, False)])]
        return cur
    return MC.same_value(c.I, st, got, exp)


# ------------------------------------------------------------------------------------ reification
def reify(c, st, t, holes):
    """[(st, subject's hole, statements)] of a statement's reification."""
    s, p, o = t[1]
    out = []
    h = holes.new()
    me = hole_subject(c, h)
    head = (tup(me, rdf("type"), node(c, OBJ, "Resource", rdf("Statement"))),
            tup(me, rdf("predicate"), node(c, OBJ, "Resource", p)))
    for a, n, x in opened(c, st, s):
        hs = Holes()
        hs.n = holes.n
        for b, e, more in reified(c, a, n, x, SUBJ, hs):
            for d, m, y in opened(c, b, o):
                ho = Holes()
                ho.n = hs.n
                for w, e2, more2 in reified(c, d, m, y, OBJ, ho):
                    out.append((w, h, head + (tup(me, rdf("subject"), e), tup(me, rdf("object"), e2)) + more + more2))
    return out


def reified(c, st, n, x, ty, holes):
    """[(st, object, statements)]: what stands for a component of a reified statement."""
    if n != "Statement":
        return [(st, node(c, OBJ, n, *x), ())]
    return [(s, hole_object(c, h), more) for s, h, more in reify(c, st, stmt(c, st, x[0]), holes)]


def count(v):
    """How many different holes are in a value."""
    seen = set()

    def walk(v):
        if isinstance(v, tuple):
            if v[:1] == ("hole",) and len(v) == 2:
                seen.add(v[1])
            else:
                for x in v:
                    walk(x)
    walk(v)
    return seen


def renumber(v):
    m = {h: i for i, h in enumerate(sorted(count(v)))}

    def walk(v):
        if type(v) is tuple:
            if v[:1] == ("hole",) and len(v) == 2:
                return ("hole", m[v[1]])
            return tuple(walk(x) for x in v)
        return v
    return walk(v), len(m)


def names_free(exp, what):
    e, n = renumber(exp)
    return upto_names(e, n, what)


def st_reify(c, st, got):
    """Some((the new subject, the statements))"""
    out = []
    for s, h, xs in reify(c, st, triple(c, st), Holes()):
        out.append((s, some(names_free(tup(hole_subject(c, h), ("bag", xs)), "the %d statements of its reification" % len(xs)))))
    return out


def list_of(c, es):
    """(first node as subject, statements) of an RDF list."""
    hs = [("hole", i) for i in range(len(es))]
    xs = ()
    for i, e in enumerate(es):
        me = hole_subject(c, hs[i])
        rest = hole_object(c, hs[i + 1]) if i + 1 < len(es) else node(c, OBJ, "Resource", rdf("nil"))
        xs += (tup(me, rdf("type"), node(c, OBJ, "Resource", rdf("List"))), tup(me, rdf("first"), e), tup(me, rdf("rest"), rest))
    return (hs[0] if es else None), xs


def coll_reify(n):
    def f(c, st, got):
        h, xs = list_of(c, c.args[:n])
        subj = hole_subject(c, h) if h else node(c, SUBJ, "Resource", rdf("nil"))
        return [(st, some(names_free(tup(subj, ("bag", xs)), "an RDF list of its %d elements" % n)))]
    return f


def skolemize(idx, u):
    def f(c, st, got):
        out = []
        for s, b, g in build(c, st, c.args[u] if u is not None else False, triples(c, st, *idx)):
            cur = [(s, (), ())]          # state, [(blank, hole)], statements
            for e in g:
                for k, ty in ((0, SUBJ), (2, OBJ)):
                    pass
                nxt = []
                for a, m, xs in cur:
                    for d, m2, x in replaced(c, a, m, e[1][0], SUBJ):
                        for w, m3, y in replaced(c, d, m2, e[1][2], OBJ):
                            nxt.append((w, m3, xs + (tup(x, e[1][1], y),)))
                cur = nxt
            for w, m, xs in cur:
                for z, n, _ in opened(c, w, got):
                    if n == "None" and m:
                        out.append((z, ANY))          # no IRI could be generated
                    else:
                        out.append((z, some(names_free(tup(ANY, ANY, len(xs), not xs, ("bag", xs), ANY),
                                                       "its %d statements with %d blank nodes replaced" % (len(xs), len(m))))))
        return out
    return f


def replaced(c, st, m, v, ty):
    out = []
    for s, n, x in opened(c, st, v):
        if n in ("Statement", "Collection"):
            out.append((s, m, v))
        elif n != "Blank":
            out.append((s, m, node(c, ty, n, *x)))
        else:
            for t, i in MC.search(c.I, s, [b for b, _ in m], x[0]):
                h = m[i][1] if i is not None else ("hole", len(m))
                out.append((t, m if i is not None else m + ((x[0], h),), hole_iri(c, ty, h)))
    return out


def simplify(c, st, got):
    out = []
    for s, u in c.I.truth(st, c.args[0]):
        for a, nm in option(c, s, c.args[1]):
            sub, p, o = triple(c, a, 2)[1]
            for b, n, x in opened(c, a, sub):
                hs = Holes()
                if n == "Statement":
                    ss = [(w, hole_subject(c, h), more) for w, h, more in reify(c, b, stmt(c, b, x[0]), hs)]
                else:
                    ss = [(b, node(c, SUBJ, n, *x), ())]
                for d, x2, more in ss:
                    for e, m, y in opened(c, d, o):
                        ho = Holes()
                        ho.n = 1 + max(count(more), default=-1)
                        if m == "Collection":
                            os = [(e, ANY, None)]
                        else:
                            os = reified(c, e, m, y, OBJ, ho)
                        for w, y2, more2 in os:
                            if more2 is None:
                                out.append((w, ANY))
                                continue
                            xs = (tup(x2, p, y2),) + more + more2
                            name = NONE if nm is None else some(nm)
                            out.append((w, some(names_free(tup(name, name != NONE, len(xs), False, ("bag", xs), ANY),
                                                           "the statement and the %d of its nested statements' reification"
                                                           % (len(xs) - 1)))))
    return out


def simplify_coll(c, st, got):
    h, xs = list_of(c, c.args[2:4])
    out = []
    for s, n, x in opened(c, st, c.args[0]):
        if n == "Statement":
            out.append((s, ANY))         # the subject's statement is simplify_1's matter
            continue
        ys = (tup(c.args[0], c.args[1], hole_object(c, h)),) + xs
        out.append((s, some(names_free(tup(NONE, False, len(ys), False, ("bag", ys), ANY), "the statement and the RDF list"))))
    return out


def no_collection(i):
    """Objects that are not collections (those are another entry point's)."""
    def f(c, st0):
        return [s for s, n, _ in opened(c, st0, triple(c, st0, i)[1][2]) if n != "Collection"]
    return f


def plain_subject(i):
    def f(c, st0):
        return [s for s, n, _ in opened(c, st0, c.args[i]) if n != "Statement"]
    return f


# ------------------------------------------------------------------------------------ data sets
def find_graph(c, st, d, name):
    """[(st, index or None)] of the graph with this name (an option)."""
    return MC.search(c.I, st, [e[0] for e in d], name)


def ds_insert(c, st, d, name, *g):
    """g: the statements, and whether the graph is one of unique ones if it is."""
    return [(s, d + ((name,) + g,) if i is None else d[:i] + ((name,) + g,) + d[i + 1:]) for s, i in find_graph(c, st, d, name)]


def ds_build(c, st, pairs):
    """[(st, data set)] of graphs of one statement each: (name argument, triple argument)."""
    cur = [(st, ())]
    for n, a in pairs:
        cur = [y for s, d in cur for y in ds_insert(c, s, d, c.args[n], (triple(c, s, a),))]
    return cur


def ds_view(c, st, d):
    return [(s, tup(len(d), not d, i is not None)) for s, i in find_graph(c, st, d, NONE)]


def graph_view(c, st, name, g, unique=False):
    return [(s, gv(c, s, NONE if v is None else some(v), g, unique)) for s, v in option(c, st, name)]


def ds_result(c, st, d, q):
    """((len, empty, has default), contains q, the graph named q)"""
    out = []
    for s, v in ds_view(c, st, d):
        for t, i in find_graph(c, s, d, c.args[q]):
            if i is None:
                out.append((t, tup(v, False, NONE)))
            else:
                out += [(w, tup(v, True, some(x))) for w, x in graph_view(c, t, *d[i])]
    return out


def ds_of(pairs, q):
    return lambda c, st, got: [y for s, d in ds_build(c, st, pairs) for y in ds_result(c, s, d, q)]


def ds_empty_graph(before, u, n, q):
    """Possibly a graph of one statement, then an empty one."""
    def f(c, st, got):
        return [y for s, b in c.I.truth(st, c.args[u]) for t, d in ds_build(c, s, before)
                for w, e in ds_insert(c, t, d, c.args[n], (), b) for y in ds_result(c, w, e, q)]
    return f


def ds_remove_insert(c, st, got):
    out = []
    for s, d in ds_build(c, st, ((0, 1),)):
        for t, i in find_graph(c, s, d, c.args[2]):
            for w, e in ds_insert(c, t, () if i is not None else d, c.args[3], (triple(c, t, 4),)):
                out += ds_result(c, w, e, 5)
    return out


def ds_remove(c, st, got):
    out = []
    for s, d in ds_build(c, st, ((0, 1), (2, 3))):
        for t, i in find_graph(c, s, d, c.args[4]):
            out += ds_result(c, t, d if i is None else d[:i] + d[i + 1:], 5)
    return out


def ds_clear(c, st, got):
    return ds_result(c, st, (), 2)


def ds_named(c, st, got):
    out = []
    for s, d in ds_build(c, st, ((0, 1),)):
        for t, i in MC.search(c.I, s, [e[0] for e in d], some(c.args[2])):
            if i is None:
                out.append((t, tup(False, NONE)))
            else:
                out += [(w, tup(True, some(x))) for w, x in graph_view(c, t, *d[i])]
    return out


def ds_default(c, st, got):
    out = []
    for s, d in ds_build(c, st, ((0, 1),)):
        for t, i in find_graph(c, s, d, NONE):
            if i is None:
                out.append((t, tup(False, NONE)))
            else:
                out += [(w, tup(True, some(x))) for w, x in graph_view(c, t, *d[i])]
    return out


def all_graphs(views):
    def g(c, st, got):
        have = items(c, st, got)
        if len(have) != len(views):
            return [(st, False)]
        out, cur = [], [st]
        for p in permutations(range(len(have))):
            nxt = []
            for s in cur:
                for t, b in c.all_same(s, [have[i] for i in p], views):
                    (out if b else nxt).append((t, True) if b else t)
            cur = nxt
        return out + [(s, False) for s in cur]
    return Pred(g, "the %d graphs, in any order" % len(views))


def ds_graphs_of(c, built):
    out = []
    for s, d in built:
        cur = [(s, ())]
        for e in d:
            cur = [(t, vs + (v,)) for w, vs in cur for t, v in graph_view(c, w, *e)]
        out += [(w, all_graphs(vs)) for w, vs in cur]
    return out


def ds_graphs(c, st, got):
    return ds_graphs_of(c, ds_build(c, st, ((0, 1), (2, 3))))


def ds_graphs_empty(c, st, got):
    return ds_graphs_of(c, [y for s, b in c.I.truth(st, c.args[0]) for t, d in ds_insert(c, s, (), c.args[1], (), b)
                            for y in ds_insert(c, t, d, c.args[2], (triple(c, t, 3),))])


def ds_graphs_removed(c, st, got):
    return ds_graphs_of(c, [(t, d if i is None else d[:i] + d[i + 1:]) for s, d in ds_build(c, st, ((0, 1), (2, 3)))
                            for t, i in find_graph(c, s, d, c.args[4])])


def ds_keeps(name, m, a, u=0):
    """The graph under its name and its mappings, twice (as given and as kept)."""
    def f(c, st, got):
        n = NONE if name is None else some(c.args[name])
        return [(s, some(tup(gv(c, s, n, g, b), c.args[m], c.args[m])))
                for s, b, g in build(c, st, c.args[u], triples(c, st, a))]
    return f


def ds_graph_mut(c, st, got):
    out = []
    for s, d in ds_build(c, st, ((0, 1),)):
        for t, i in find_graph(c, s, d, c.args[3]):
            if i is not None:
                n, g = d[i]
                d2 = d[:i] + ((n, g + (triple(c, t, 2),)),) + d[i + 1:]
            else:
                d2 = d
            out += ds_result(c, t, d2, 3)
    return out


# ------------------------------------------------------------------------------------ resources
def literal_object(c, v):
    return node(c, OBJ, "Literal", v)


def res(f):
    """The statements of a resource, in any order."""
    def g(c, st, got):
        return [(s, listed(c, s, xs)) for s, xs in f(c, st, got)]
    return g


def res_lits(*pairs):
    """(subject argument 0) with a literal for each (predicate argument, literal argument)."""
    return res(lambda c, st, got: [(st, [tup(c.args[0], c.args[p], literal_object(c, c.args[l])) for p, l in pairs])])


def res_made(ty, kind):
    return res(lambda c, st, got: [(st, [tup(node(c, SUBJ, kind, c.args[0]), c.args[1], literal_object(c, c.args[2]))])])


def res_with_literal(c, st, got):
    """(the literal, the statements)"""
    l = items(c, st, got)[0]
    return [(st, tup(ANY, listed(c, st, [tup(c.args[0], c.args[1], literal_object(c, l))])))]


def res_object(kind):
    return res(lambda c, st, got: [(st, [tup(c.args[0], c.args[1], node(c, OBJ, kind, c.args[2]))])])


def res_resource(c, st, got):
    out = []
    for s, o in to_object(c, st, c.args[2]):
        out.append((s, [tup(c.args[0], c.args[1], o), tup(c.args[2], c.args[3], literal_object(c, c.args[4]))]))
    return out


def res_instance(c, st, got):
    return [(st, tup(ANY, listed(c, st, [tup(c.args[0], rdf("type"), node(c, OBJ, "Resource", c.args[1]))])))]


def res_predicate(c, st, got):
    s, p, l, o, m = c.args
    return [(st, [tup(s, p, literal_object(c, l)), tup(s, p, node(c, OBJ, "Resource", o)), tup(s, p, literal_object(c, m))])]


def members(c, me, kind, es):
    """The statements of a container, but for the one that names it."""
    xs = (tup(hole_subject(c, me), rdf("type"), node(c, OBJ, "Resource", kind)),)
    for i, e in enumerate(es):
        xs += (tup(hole_subject(c, me), rdf("_%d" % (i + 1)), e),)
    return xs


def container(kind, resources=False, idx=(2, 3), wrap=True):
    def f(c, st, got):
        cur = [(st, ())]
        for i in idx:
            if resources:
                cur = [(t, es + (o,)) for s, es in cur for t, o in to_object(c, s, c.args[i])]
            else:
                cur = [(s, es + (literal_object(c, c.args[i]),)) for s, es in cur]
        out = []
        me = ("hole", 0)
        for s, es in cur:
            k = c.args[4] if kind is None else rdf(kind)
            xs = (tup(c.args[0], c.args[1], hole_object(c, me)),) + members(c, me, k, es)
            e = names_free(("bag", xs), "the container's %d statements" % len(xs))
            out.append((s, tup(ANY, ANY, e) if wrap else e))
        return out
    return f


def res_deep_bag(c, st, got):
    s0, p, a, q, l = c.args
    out = []
    for s, o in to_object(c, st, a):
        me = ("hole", 0)
        xs = (tup(s0, p, hole_object(c, me)),) + members(c, me, rdf("Bag"), (o,)) + (tup(a, q, literal_object(c, l)),)
        out.append((s, names_free(("bag", xs), "the container's statements and its member's")))
    return out


def res_deep_resource(c, st, got):
    s0, p, a, q, b, t, l = c.args
    out = []
    for s, o in to_object(c, st, a):
        for w, u in to_object(c, s, b):
            out.append((w, [tup(s0, p, o), tup(a, q, u), tup(b, t, literal_object(c, l))]))
    return out


def res_mixed(c, st, got):
    s0, p, l, q, o, k, b = c.args
    return [(st, [tup(s0, p, literal_object(c, l)), tup(s0, q, node(c, OBJ, "Resource", o)), tup(s0, k, node(c, OBJ, "Blank", b))])]


def res_anonymous(c, st, got):
    xs = (tup(hole_subject(c, ("hole", 0)), c.args[0], literal_object(c, c.args[1])),)
    return [(st, names_free(("bag", xs), "the statement about a generated blank node"))]


def res_clone(c, st, got):
    s, p, l, m = c.args
    x, y = (tup(s, p, literal_object(c, z)) for z in (l, m))
    return [(st, tup(listed(c, st, [x, y]), listed(c, st, [x])))]


def res_is(*props):
    """Whether the resource is a resource and an individual, given where its properties' predicates are"""
    def spec(c, st, got):
        out = []
        for s, n, _ in opened(c, st, c.args[0]):
            todo = [(s, False)]
            for p in props:
                todo = [(u, has or b) for t, has in todo
                        for u, b in ([(t, True)] if has or p is True else eq(c, t, c.args[p], rdf("type")))]
            out += [(t, tup(n == "Resource", has, ANY)) for t, has in todo]
        return out
    return spec


def res_tree(top):
    """The statements of a tree of resources, of argument positions: a resource is (subject, [(predicate, value)...]);
    a value is ("lit", l), ("iri", i), a resource, or (kind of container, [value...]).  A subject is an argument,
    ("blank", argument), or "anonymous"."""
    def subject(c, st, s, free):
        """[(state, as a subject, as an object, free)]"""
        if s == "anonymous":
            return [(st, hole_subject(c, ("hole", free)), hole_object(c, ("hole", free)), free + 1)]
        if isinstance(s, tuple):
            b = c.args[s[1]]
            return [(st, node(c, SUBJ, "Blank", b), node(c, OBJ, "Blank", b), free)]
        return [(t, c.args[s], o, free) for t, o in to_object(c, st, c.args[s])]

    def value(c, st, v, free):
        """[(state, object, statements, free)]"""
        k, x = v
        if k == "lit":
            return [(st, literal_object(c, c.args[x]), (), free)]
        if k == "iri":
            return [(st, node(c, OBJ, "Resource", c.args[x]), (), free)]
        if k not in ("Bag", "Alt", "Seq"):
            return resource(c, st, v, free)
        me = ("hole", free)
        cur = [(st, (), (), free + 1)]
        for e in x:
            cur = [(u, es + (o,), ss + xs, g) for t, es, ss, f in cur for u, o, xs, g in value(c, t, e, f)]
        return [(t, hole_object(c, me), members(c, me, rdf(k), es) + ss, f) for t, es, ss, f in cur]

    def resource(c, st, r, free):
        out = []
        for t, s, o, f in subject(c, st, r[0], free):
            cur = [(t, (), f)]
            for p, v in r[1]:
                cur = [(w, ss + (tup(s, rdf("type") if p == "type" else c.args[p], x),) + xs, h)
                       for u, ss, g in cur for w, x, xs, h in value(c, u, v, g)]
            out += [(u, o, ss, g) for u, ss, g in cur]
        return out

    def f(c, st, got):
        return [(t, names_free(("bag", ss), "the %d statements of the tree" % len(ss)) if n else listed(c, t, list(ss)))
                for t, _, ss, n in resource(c, st, top, 0)]
    return f


TREES = {"two": (0, [(1, ("Bag", [(2, [(3, ("lit", 4)), (5, ("lit", 6))])]))]),
         "pair": (0, [(1, ("Seq", [(2, [(3, ("lit", 4))]), (5, [(6, ("lit", 7))])]))]),
         "bag_below": (0, [(1, (2, [(3, ("Bag", [("lit", 4), ("lit", 5)]))]))]),
         "two_bags": (0, [(1, ("Bag", [("lit", 2)])), (3, ("Alt", [("lit", 4)]))]),
         "bag_in_bag": (0, [(1, ("Bag", [(2, [(3, ("Seq", [("lit", 4)]))])]))]),
         "mixed": (0, [(1, ("lit", 2)), (1, (3, [(4, ("lit", 5))])), (1, ("Bag", [("lit", 6)]))]),
         "pred": (0, [(1, ("lit", 2)), (1, (3, [(4, ("lit", 5))])), (1, ("Bag", [("lit", 6)]))]),
         "classes": (0, [("type", ("iri", 1)), (3, ("lit", 4)), ("type", ("iri", 2))]),
         "deep": (0, [(1, (("blank", 2), [(1, (("blank", 3), [(1, (("blank", 4), [(1, ("lit", 5))]))]))]))]),
         "anonymous": (0, [(1, ("anonymous", [(2, ("lit", 3))]))])}


# ------------------------------------------------------------------------------------ options
def atomic(I):
    I.atomic = I.atomic_cmp = set(MC.ATOMS)


def atomic_flat(I):
    atomic(I)
    I.maxnest = 1


def flat(I):
    I.maxnest = 1


def order_atomic(I):
    I.atomic_cmp = set(MC.ATOMS)


A = dict(invariants=atomic)
SV, OV, NV = subject_view, object_view, name_view


# ----------------------------------------------------------------------------- many members
def wide(*form, u=0):
    """Views of graphs of many statements. The form says what stands at each place of the
    result: 'g' a graph that may hold duplicates as the argument says, 'd' one that may,
    'l' a list, 'x' what the place before must hold, '1' ... what the place before must hold
    in a graph that holds each statement once."""
    def f(c, st, got):
        v = items(c, st, got)
        out = []
        for s, b in ([(st, False)] if u is None else c.I.truth(st, c.args[u])):
            xs = []
            for i, k in enumerate(form):
                if k in "gdl":
                    w = v[i + 1]
                    if form[i + 1] == "a" and not b:
                        e = items(c, s, w) + items(c, s, v[i + 2])
                    else:
                        e = items(c, s, w)
                    xs.append(listed(c, s, e) if k == "l" else gv(c, s, NONE, e, b if k == "g" else False))
                elif k == "o":
                    e = items(c, s, v[i + 1])
                    xs.append(some(tup(ANY, ANY, len(e), not e, listed(c, s, e), ANY)))
                else:
                    xs.append(ANY)
            out.append((s, tup(*xs)))
        return out
    return f


def wide_dedup(c, st, got):
    w = items(c, st, items(c, st, got)[2])
    return [(st, tup(listed(c, st, w), gv(c, st, NONE, w, False), ANY))]


def wide_coll(c, st, got):
    w = items(c, st, items(c, st, got)[1])
    return [(st, tup(tup(len(w), False, arr(*w)), ANY))]


def wide_coll_show(c, st, got):
    ts = items(c, st, items(c, st, got)[1])
    segs = ["( "]
    for t in ts:
        segs += list(t[1]) + [" "]
    return [(st, tup(text(segs + [")"]), ANY))]


def wide_coll_reify(c, st, got):
    es = items(c, st, items(c, st, got)[0])
    h, xs = list_of(c, es)
    return [(st, tup(ANY, some(names_free(tup(hole_subject(c, h), ("bag", xs)), "an RDF list of its elements"))))]


def wide_ds(c, st, got):
    v = items(c, st, got)
    xs = [items(c, st, e) for e in items(c, st, v[1])]
    return [(st, tup(tup(len(xs), False, False), arr(*[tup(True, e[1], arr(e[1])) for e in xs])))]


def wide_ds_history(c, st, got):
    v = items(c, st, got)
    xs = [items(c, st, e) for e in items(c, st, v[1])]
    return [(st, tup(tup(len(xs) + 1, False, True), arr(*[tup(True, e[1], arr(e[1])) for e in xs]), False, True))]


def wide_container(kind):
    def f(c, st, got):
        es = items(c, st, items(c, st, got)[0])
        me = ("hole", 0)
        xs = (tup(c.args[0], c.args[1], hole_object(c, me)),) + members(c, me, rdf(kind), es)
        return [(st, tup(ANY, names_free(("bag", xs), "the container's %d statements" % len(xs))))]
    return f


def wide_values(c, st, got):
    es = items(c, st, items(c, st, got)[0])
    return [(st, tup(ANY, listed(c, st, [tup(c.args[0], c.args[1], e) for e in es])))]


def wide_predicates(c, st, got):
    return [(st, tup(listed(c, st, items(c, st, items(c, st, got)[1])), ANY))]


NORMAL = Pred(lambda c, st, got: [(st, True)], "a normal return")


def registry(roots):
    reg = {}

    def add(pid, root, sp, **opts):
        reg.setdefault(pid, []).append((root, sp, opts))

    # C25 conversions and accessors
    c = "C25"
    add(c, "bnode_from_str", bnode_from_str)
    add(c, "bnode_from_str_again", some_true([NAME]))
    add(c, "bnode_is_valid", bnode_valid)
    add(c, "bnode_of_name", named_option(lambda c, st, s: tup(text(s), text(s), text(s))))
    add(c, "bnode_texts", fixed(lambda c, st: tup(*[text(btext(c, st))] * 4)))
    add(c, "bnode_qname", shown("_:", ""))
    for p, v in (("subj", SV), ("obj", OV)):
        for r, k in (("blank", "Blank"), ("iri", "Resource"), ("stmt", "Statement")) + \
                ((("literal", "Literal"), ("collection", "Collection")) if p == "obj" else ()):
            add(c, "%s_%s" % (p, r), made(v, k))
            add(c, "%s_%s_ref" % (p, r), made(v, k))
            add(c, "%s_eq_%s" % (p, r), node_is(k))
        add(c, p + "_arc", made(v, "Statement"))
        add(c, p + "_arc_ref", made(v, "Statement"))
        add(c, p + "_eq_arc", node_is("Statement"))
        add(c, p + "_name", parsed_name(v, "Blank"))
        add(c, p + "_name_ref", parsed_name(v, "Blank"))
        add(c, p + "_self_ref", same_node())
        add(c, p + "_view", viewed(v))
    add(c, "subj_to_object", s_to_object)
    add(c, "subj_round", s_round)
    add(c, "obj_to_subject", o_to_subject)
    add(c, "coll_nil", fixed(lambda c, st: coll()))
    for r, k in (("blank", "Blank"), ("iri", "Resource"), ("literal", "Literal")):
        add(c, "coll_" + r, coll_of(k))
        add(c, "coll_%s_ref" % r, coll_of(k))
    add(c, "coll_object", coll_args(1))
    add(c, "coll_object_ref", coll_args(1))
    for r in ("coll_stmt", "coll_stmt_ref"):
        add(c, r, fixed(lambda c, st: coll(object_view(c, st, "Statement", c.args[0]))))
    for r in ("coll_name", "coll_name_ref"):
        add(c, r, named_option(lambda c, st, s: tup(text(s), arr(object_view(c, st, "Blank", bnode(s))))))
    for n in range(4):
        add(c, "coll_vec_%d" % n, coll_args(n))
    add(c, "coll_iter_2", coll_args(2))
    add(c, "coll_back_2", fixed(lambda c, st: arr(*c.args)))
    add(c, "stmt_new", fixed(lambda c, st: triple(c, st)))
    add(c, "stmt_clone", fixed(lambda c, st: triple(c, st)))
    add(c, "stmt_type", fixed(lambda c, st: tup(rdf("type"), tup(c.args[0], rdf("type"), c.args[1]))))
    for k, r in enumerate(("subject", "predicate", "object")):
        add(c, "stmt_set_" + r, st_set(k))
    add(c, "stmt_is_nested", st_nested)

    for r in ("coll_arc", "coll_arc_ref"):
        add(c, r, fixed(lambda c, st: coll(object_view(c, st, "Statement", c.args[0]))))
    add(c, "coll_default", fixed(lambda c, st: coll()))
    add(c, "coll_clone_2", coll_args(2))
    add(c, "bnode_clone", same_node())
    add(c, "subj_clone", viewed(SV))
    add(c, "obj_clone", viewed(OV))
    add(c, "gname_clone", viewed(NV))
    add(c, "lit_clone", alike)

    # C26 equality, order, hash
    c = "C26"
    for p in ("subj", "obj", "gname"):
        add(c, p + "_eq", both)
    add(c, "stmt_eq", both)
    add(c, "lit_eq", lit_eq)
    for p in ("subj", "obj", "stmt", "lit", "dt"):
        add(c, p + "_cmp", compared)
    for p in ("subj", "obj", "lit"):
        add(c, p + "_cmp3", transitive)
    add(c, "stmt_cmp3", transitive, invariants=order_atomic)
    for p in ("subj", "obj", "stmt", "lit"):
        add(c, p + "_hash", hashed(1))

    add(c, "bnode_eq", both)
    add(c, "bnode_cmp", compared)
    add(c, "bnode_cmp3", transitive)
    add(c, "coll_eq_22", coll_eq(2))
    add(c, "coll_eq_12", coll_eq(1))
    for r in ("11", "01", "12"):
        add(c, "coll_cmp_" + r, compared_only)
    for p in ("bnode", "gname", "subj", "obj", "stmt", "lit", "dt", "coll"):
        add(c, p + "_hash2", hashed_alike(2, 3))

    # C27 printed forms
    c = "C27"
    for p in ("subj", "obj", "gname"):
        add(c, p + "_show_blank", shown("_:", ""))
        add(c, p + "_show_iri", shown("<", ">"))
    for p in ("subj", "obj"):
        add(c, p + "_show_stmt", around("<< ", " >>"))
    add(c, "stmt_show", st_show)
    add(c, "obj_show_literal", same_show)
    add(c, "obj_show_collection", lambda c, st, got: [(st, tup(ANY, items(c, st, got)[0]))])
    add(c, "coll_show_1", coll_show_1)
    add(c, "coll_show_2", coll_show_2)
    add(c, "lit_show", lit_show)
    add(c, "dt_show", dt_case(True))

    # C28 data types and IRIs
    c = "C28"
    add(c, "dt_iri", dt_case(False))
    add(c, "dt_round", dt_round)
    add(c, "dt_of_iri", dt_of_iri)
    add(c, "lit_typed_iri", lit_typed_iri)

    # C29 literals of native values
    c = "C29"
    add(c, "lit_plain", lit_text(0, None, ("dt", "String")))
    add(c, "lit_str", lit_text(0, None, ("dt", "String")))
    add(c, "lit_language", lit_text(0, None, ("lang", 1)))
    add(c, "lit_typed", lit_text(0, None, ("arg", 1)))
    add(c, "lit_safe_text", lit_safe)
    for r, k in (("bool", "Boolean"), ("i64", "Long"), ("i32", "Int"), ("i16", "Short"), ("i8", "Byte"), ("u64", "UnsignedLong"),
                 ("u32", "UnsignedInt"), ("u16", "UnsignedShort"), ("u8", "UnsignedByte"), ("f64", "Double"), ("f32", "Float")):
        add(c, "lit_" + r, native(k))
        if "f" not in r:
            add(c, "lit_is_" + r, agree, pre=literal_arg(0))
    for r in ("decimal_ref", "cduration_ref", "duration_ref", "iri_val"):
        add(c, "lit_" + r, alike)
    add(c, "lit_name_val", alike_some([NAME]))
    add(c, "lit_lname_val", alike_some([NAMESPACE, NAME]))
    add(c, "lit_iri", own_text("Iri"))
    add(c, "lit_iri_back", some_arg)
    add(c, "lit_hex", same_text("HexBinary"))
    add(c, "lit_base64", same_text("Base64Binary"))
    add(c, "lit_hex_back_0", some_args())
    add(c, "lit_hex_back_2", some_args(0, 1))
    add(c, "lit_hex_back_3", some_args(0, 1, 2))
    add(c, "lit_base64_back_2", some_args(0, 1))
    add(c, "lit_hex_text", hex_text, pre=printable)
    add(c, "lit_hex_text_3", hex_text, pre=printable)
    add(c, "lit_to_bytes", lit_to_bytes, pre=not_hex)
    add(c, "lit_decimal", same_text("Decimal"))
    add(c, "lit_cduration", same_text("Duration"))
    for r in ("decimal", "cduration", "f64", "f32", "secs"):
        add(c, "lit_is_" + r, agree, pre=literal_arg(0))
    add(c, "lit_lang", same_form_plain("Language"))
    add(c, "lit_name", lit_name_some("Name", [NAME]))
    add(c, "lit_lname", lit_name_some("QName", [NAMESPACE, NAME]))
    add(c, "lit_secs", lit_secs)
    add(c, "lit_nanos", lit_nanos)
    add(c, "lit_bytes_of", bytes_of)
    add(c, "lit_bytes_plain", lambda c, st, got: [(st, tup(False, False))])
    add(c, "lit_is_iri", all_true(1))
    for r in ("iri", "lang"):
        add(c, "lit_any_" + r, agree, pre=literal_arg(0))
    for r in ("name", "lname"):
        add(c, "lit_any_" + r, agree_some, pre=literal_arg(0))
    for r in ("string", "str"):
        add(c, "lit_any_" + r, agree_text, pre=literal_arg(0))
    add(c, "lit_is_string", all_true(2))
    add(c, "lit_is_str", all_true(2))
    add(c, "lit_is_lang", all_true(1))
    add(c, "lit_is_name", some_true([NAME]))
    add(c, "lit_is_lname", some_true([NAMESPACE, NAME]))
    add(c, "lit_to_iri", lit_to_iri)

    # C30 graph queries
    c = "C30"
    add(c, "graph_matches_0", select((), pattern(1)), **A)
    add(c, "graph_matches_1", select((1,), pattern(2)), **A)
    add(c, "graph_matches_2s", select((1, 2), part(0, 3)), **A)
    add(c, "graph_matches_2p", select((1, 2), part(1, 3)), **A)
    add(c, "graph_matches_2o", select((1, 2), part(2, 3)), **A)
    add(c, "graph_matches_2", select((1, 2), pattern(3)), **A)
    add(c, "graph_matches_3s", select((1, 2, 3), part(0, 4)), **A)
    add(c, "graph_matches_3p", select((1, 2, 3), part(1, 4)), **A)
    add(c, "graph_matches_3o", select((1, 2, 3), part(2, 4)), **A)
    add(c, "graph_contains_3", contains((1, 2, 3), 4), **A)
    add(c, "graph_subjects_3", select((1, 2, 3), None, lambda e: e[1][0]), **A)
    add(c, "graph_predicates_3", select((1, 2, 3), None, lambda e: e[1][1]), **A)
    add(c, "graph_objects_3", select((1, 2, 3), None, lambda e: e[1][2]), **A)
    add(c, "graph_contains_0", contains((), 1), **A)
    add(c, "graph_contains_1", contains((1,), 2), **A)
    add(c, "graph_contains_2", contains((1, 2), 3), **A)
    add(c, "graph_contains_subject_2", contains_subject, **A)
    add(c, "graph_subjects_2", select((1, 2), None, lambda e: e[1][0]), **A)
    add(c, "graph_node_subjects_2", select((1, 2), kind_test(False), lambda e: e[1][0]), **A)
    add(c, "graph_blank_subjects_2", select((1, 2), kind_test(True), lambda e: e[1][0]), **A)
    add(c, "graph_predicates_2", select((1, 2), None, lambda e: e[1][1]), **A)
    add(c, "graph_predicates_for_2", select((1, 2), part(0, 3), lambda e: e[1][1]), **A)
    add(c, "graph_objects_2", select((1, 2), None, lambda e: e[1][2]), **A)
    add(c, "graph_objects_for_2", select((1, 2), parts((0, 3), (1, 4)), lambda e: e[1][2]), **A)

    # C31 graphs as sets or multisets
    c = "C31"
    add(c, "graph_of_0", built(()), **A)
    add(c, "graph_of_1", built((1,)), **A)
    add(c, "graph_of_2", built((1, 2)), **A)
    add(c, "graph_of_3", built((1, 2, 3)), **A)
    add(c, "graph_named", built((1,), name=0, unique=False), **A)
    add(c, "graph_unique_named", built((1, 2), name=0, unique=True), **A)
    add(c, "graph_set_name", built((2,), name=1), **A)
    add(c, "graph_unset_name", built((2,)), **A)
    add(c, "graph_from_stmt", built((0,), unique=False), **A)
    add(c, "graph_from_vec_2", built((0, 1), unique=False), **A)
    add(c, "graph_from_iter_2", built((0, 1), unique=False), **A)
    add(c, "graph_with_statements_0", built(()), **A)
    add(c, "graph_with_statements_1", built((2,)), **A)
    add(c, "graph_with_statements_2", built((2, 3)), **A)
    add(c, "graph_with_statements_keeps", named_built((3,)), **A)
    add(c, "graph_insert_keeps", named_built((3, 4)), **A)
    add(c, "graph_extend_keeps", named_built((3, 4)), **A)
    add(c, "graph_remove_keeps", named_removed, **A)
    add(c, "graph_remove_all_for_keeps2", named_removed_for, **A)
    add(c, "graph_merge_keeps", named_merged, **A)
    add(c, "graph_rename_keeps", named_built((3,)), **A)
    add(c, "graph_set_mappings_keeps", named_built((3,)), **A)
    add(c, "graph_with_mappings_keeps", named_built((3,)), **A)
    add(c, "graph_clear_named", named_built(()), **A)
    add(c, "graph_clone_named", named_built((3,)), **A)
    add(c, "graph_dedup_named", named_dedup, **A)
    add(c, "graph_extend_0", built((1,)), **A)
    add(c, "graph_merge_0", merged_of((2,), ()), **A)
    add(c, "graph_merge_into_0", merged_of((), (2,)), **A)
    add(c, "graph_merge_names", merged_of((), (3,), 1, 2, w=0), **A)
    add(c, "graph_merge_self_name", merged_of((), (2,), None, 1, w=0), **A)
    add(c, "graph_remove_0", removed((), 1), **A)
    add(c, "graph_remove_1", removed_one, **A)
    add(c, "graph_extend_2", built((1, 2, 3)), **A)
    add(c, "graph_merge", merged, **A)
    add(c, "graph_clear", built(()), **A)
    add(c, "graph_clone", cloned, **A)
    add(c, "graph_remove_2", removed((1, 2), 3), **A)
    add(c, "graph_remove_3", removed((1, 2, 3), 4), **A)
    add(c, "graph_remove_then", removed_then, **A)
    add(c, "graph_remove_all_for_2", removed_for((1, 2), 3), **A)
    add(c, "graph_remove_all_for_3", removed_for((1, 2, 3), 4), **A)
    add(c, "graph_merge_2", merged_2, **A)
    add(c, "graph_clear_insert", built((2, 3)), **A)
    add(c, "graph_mappings", lambda c, st, got: [(st, tup(c.args[0], c.args[1], c.args[1]))])
    add(c, "graph_remove_all_for_keeps", removed_keeps, **A)
    add(c, "graph_dedup_2", dedup(0, (1, 2)), **A)
    add(c, "graph_dedup_3", dedup(None, (0, 1, 2)), **A)
    add(c, "graph_dedup_then_insert", dedup_insert, **A)
    add(c, "graph_features", graph_features, **A)

    # C32 reification, simplification, skolemization
    c = "C32"
    add(c, "stmt_reify", st_reify, invariants=flat)
    for n in range(4):
        add(c, "coll_reify_%d" % n, coll_reify(n))
    add(c, "graph_simplify_1", simplify, invariants=atomic_flat, pre=no_collection(2))
    add(c, "graph_simplify_coll_2", simplify_coll, invariants=atomic_flat, pre=plain_subject(0))
    add(c, "graph_skolemize_1", skolemize((2,), 0), **A)
    add(c, "graph_skolemize_2", skolemize((1, 2), None), **A)

    # C33 data sets
    c = "C33"
    add(c, "ds_empty", ds_of((), 0), **A)
    add(c, "ds_insert_1", ds_of(((0, 1),), 2), **A)
    for r in ("insert", "extend", "from_vec"):
        add(c, "ds_%s_2" % r, ds_of(((0, 1), (2, 3)), 4), **A)
    add(c, "ds_from_graph", ds_of(((0, 1),), 2), **A)
    add(c, "ds_remove", ds_remove, **A)
    add(c, "ds_empty_graph", ds_empty_graph((), 0, 1, 2), **A)
    add(c, "ds_from_empty", ds_empty_graph((), 0, 1, 2), **A)
    add(c, "ds_empty_after", ds_empty_graph(((0, 1),), 2, 3, 4), **A)
    add(c, "ds_from_map", ds_of(((0, 1),), 2), **A)
    add(c, "ds_clear_insert", ds_of(((2, 3),), 4), **A)
    add(c, "ds_remove_insert", ds_remove_insert, **A)
    add(c, "ds_two_statements", lambda c, st, got: [y for s, d in ds_insert(
        c, st, (), c.args[0], (triple(c, st, 1), triple(c, st, 2))) for y in ds_result(c, s, d, 3)], **A)
    add(c, "ds_clear", ds_clear, **A)
    add(c, "ds_named", ds_named, **A)
    add(c, "ds_default", ds_default, **A)
    add(c, "ds_graphs_2", ds_graphs, **A)
    add(c, "ds_graph_mut", ds_graph_mut, **A)
    add(c, "ds_graphs_empty", ds_graphs_empty, **A)
    add(c, "ds_graphs_from", ds_graphs_empty, **A)
    add(c, "ds_graphs_removed", ds_graphs_removed, **A)
    add(c, "ds_extend_on", ds_of(((0, 1), (2, 3)), 4), **A)
    add(c, "ds_from_then_insert", ds_of(((0, 1), (2, 3)), 4), **A)
    add(c, "ds_extend_0", ds_of(((0, 1),), 2), **A)
    add(c, "ds_extend_empty", ds_empty_graph(((0, 1),), 2, 3, 4), **A)
    for r in ("insert", "extend", "from", "replace"):
        add(c, "ds_keeps_" + r, ds_keeps(1, 2, 3), **A)
    add(c, "ds_keeps_default", ds_keeps(None, 1, 2), **A)

    # C34 graph names
    c = "C34"
    for r, k in (("blank", "Blank"), ("iri", "Resource")):
        add(c, "gname_" + r, made(NV, k))
        add(c, "gname_%s_ref" % r, made(NV, k))
    add(c, "gname_named", made(NV, "Resource"))
    add(c, "gname_name", parsed_name(NV, "Blank"))
    add(c, "gname_name_ref", parsed_name(NV, "Blank"))
    add(c, "gname_blank_named", lambda c, st, got: [
        (t, tup(NONE, NONE) if n is None else tup(some(name_view(c, t, "Blank", bnode(n))), some(bnode(n))))
        for t, n in blank_text(c, st, c.s(st, 0))])
    add(c, "gname_subject", lambda c, st, got: [(s, NONE if n == "Statement" else some(name_view(c, s, n, x[0])))
                                               for s, n, x in opened(c, st, c.args[0])])
    add(c, "gname_view", viewed(NV))

    # C35 resources
    c = "C35"
    add(c, "res_empty", res(lambda c, st, got: [(st, [])]), **A)
    add(c, "res_individual", res_made(SUBJ, "Resource"), **A)
    add(c, "res_blank", res_made(SUBJ, "Blank"), **A)
    add(c, "res_property", res_lits((1, 2)), **A)
    add(c, "res_value_of", res_lits((1, 2)), **A)
    add(c, "res_literal_2", res_lits((1, 2), (3, 4)), **A)
    for r in ("str", "typed", "lang"):
        add(c, "res_literal_" + r, res_with_literal, **A)
    add(c, "res_named", res_object("Resource"), **A)
    add(c, "res_blank_named", res_object("Blank"), **A)
    add(c, "res_resource", res(res_resource), **A)
    add(c, "res_instance_of", res_instance, **A)
    add(c, "res_predicate", res(res_predicate), **A)
    for r, k in (("bag", "Bag"), ("alt", "Alt"), ("seq", "Seq")):
        add(c, "res_" + r, container(k), **A)
        add(c, "res_resource_" + r, container(k, True), **A)
        add(c, "res_pred_" + r, container(k), **A)
        add(c, "res_pred_resource_" + r, container(k, True), **A)
    for r in ("", "pred_"):
        add(c, "res_%scontainer" % r, container(None), **A)
        add(c, "res_%sresource_container" % r, container(None, True), **A)
    add(c, "res_bag_0", container("Bag", idx=(), wrap=False), **A)
    add(c, "res_seq_3", container("Seq", idx=(2, 3, 4), wrap=False), **A)
    add(c, "res_deep_bag", res_deep_bag, **A)
    add(c, "res_deep_resource", res(res_deep_resource), **A)
    add(c, "res_pred_resource", res(res_resource), **A)
    add(c, "res_pred_blank_named", res_object("Blank"), **A)
    add(c, "res_pred_after", res_lits((1, 2), (3, 4)), **A)
    add(c, "res_mixed", res(res_mixed), **A)
    add(c, "res_anonymous", res_anonymous, **A)
    add(c, "res_clone", res_clone, **A)
    add(c, "res_is", res_is(1), **A)
    add(c, "res_is_bare", res_is(), **A)
    add(c, "res_is_two", res_is(1, 3), **A)
    add(c, "res_is_typed", res_is(True), **A)
    for k, v in TREES.items():
        add(c, "res_tree_" + k, res_tree(v), **A)
    # many members
    for r in ("insert", "extend", "with", "merge", "clone", "remove", "clear"):
        add("C31", "wide_" + r, wide("g", "x"), **A)
    add("C31", "wide_from_vec", wide("d", "x", u=None), **A)
    add("C31", "wide_again", wide("g", "a", "a"), **A)
    add("C31", "wide_dedup", wide_dedup, **A)
    add("C31", "wide_history", wide("g", "a", "a"), **A)
    add("C31", "wide_refill", wide("g", "x"), **A)
    add("C31", "wide_drain", wide("g", "x"), **A)
    add("C31", "wide_remove_all_for", wide("l", "x", "g", "x"), **A)
    add("C30", "wide_matches", wide("l", "x", "l", "x", "l", "x"), **A)
    add("C30", "wide_contains", fixed(lambda c, st: tup(True, False, True, False)), **A)
    add("C30", "wide_parts", wide("l", "x", "l", "x", "l", "x"), **A)
    add("C30", "wide_star", wide("l", "x", "l", "x"), **A)
    add("C25", "wide_coll", wide_coll)
    add("C27", "wide_coll_show", wide_coll_show)
    add("C29", "lit_base64_empty", fixed(lambda c, st: lv(text(()), some(node(c, DTYPE, "Base64Binary")), NONE)))
    add("C33", "ds_insert_3", ds_of(((0, 1), (2, 3), (4, 5)), 6), **A)
    add("C25", "gname_generated", lambda c, st, got: [(st, names_free(tup(tup(True, False, some(hole_subject(c, ("hole", 0))[3][0]), NONE), False), "a blank name, not equal to another"))])
    add("C32", "wide_coll_reify", wide_coll_reify)
    add("C32", "wide_simplify", wide("o", "x"), **A)
    add("C32", "wide_skolemize", wide("o", "x"), **A)
    add("C33", "wide_ds_history", wide_ds_history, **A)
    for r in ("wide_ds", "wide_ds_extend", "wide_ds_from"):
        add("C33", r, wide_ds, **A)
    add("C35", "wide_seq", wide_container("Seq"), **A)
    add("C35", "wide_values", wide_values, **A)
    add("C35", "wide_predicates", wide_predicates, **A)
    # C36 features
    for k, v in FEATURES.items():
        add("C36", "feat_" + k, fixed(lambda c, st, v=v: iri_of(FEATURE + v)))
    add("C36", "feats_stmt", announces("star", "coll"))
    add("C36", "feats_subj", announces("star"))
    add("C36", "feats_obj", announces("star", "coll"))
    add("C36", "feats_ds", announces())
    add("C36", "graph_features", graph_features, **A)

    add("C36", "graph_features_2", graph_features, **A)
    add("C36", "graph_features_named", graph_features_at(1), **A)
    add("C36", "feats_ds_1", announces(), **A)

    # C37 errors
    c = "C37"
    add(c, "cerr_from_borrow", fixed(lambda c, st: node(c, ERR, "Borrow", ANY)))     # it has no contents
    for r, k in (("io", "Io"), ("iri", "Iri"), ("lang", "LanguageTag"), ("name", "Name"), ("utf8", "Utf8"),
                 ("base64", "Base64Decoder"), ("string", "Unknown")):
        add(c, "cerr_from_" + r, err_made(k, 0))
    for r, k, n in (("invalid_from_str", "InvalidFromStr", 2), ("invalid_blank", "InvalidBlankNodeName", 1),
                    ("empty_qname", "EmptyQName", 0), ("invalid_qname", "InvalidQName", 1), ("mismatch", "ProviderMismatch", 2),
                    ("invalid_match", "InvalidMatch", 0), ("absolute", "AbsoluteIriExpected", 1),
                    ("invalid_state", "InvalidState", 0), ("star", "RdfStarNotSupported", 1),
                    ("formulae", "FormulaeNotSupported", 1), ("results", "QueryResultsFormat", 1), ("unknown_text", "Unknown", 1)):
        add(c, "cerr_" + r, err_made(k, *range(n)))
    add(c, "cerr_unknown", err_unknown)
    add(c, "cerr_into_result", err_result)
    add(c, "cerr_source", err_wrapped)
    add(c, "cerr_display", err_shown, observe=err_obs)
    for n in (1, 2, 3):
        add(c, "cerr_trace_%d" % n, trace(n))
    add(c, "cerr_bnode", err_bnode)
    add(c, "cerr_lit_iri", err_coerce("Iri"), pre=literal_arg(0))
    add(c, "cerr_lit_bytes", err_coerce("Base64Binary"), pre=not_hex)
    add(c, "cerr_hex", err_hex, pre=printable)
    add(c, "cerr_hex_3", err_hex, pre=printable)
    for r in ("wide_hex_back", "wide_base64_back"):
        add("C29", r, some_args(*(list(range(11)) * 12)))

    # C38 no panics: every entry point
    seen = {}
    for jobs in list(reg.values()):
        for r, _, o in jobs:
            if "group" not in o:
                seen.setdefault(r, o)
    for r, o in seen.items():
        add("C38", r, lambda c, st, got: [(st, NORMAL)],
            **{k: v for k, v in o.items() if k != "observe"})
    return reg


def every(c, st, got):
    """A wrong specification of a filter: an open pattern finds everything."""
    out = []
    for s, v in option(c, st, c.args[1]):
        x = triple(c, s, 0)
        for t, b in ([(s, True)] if v is None else eq(c, s, x[1][0], v)):
            out.append((t, listed(c, t, [x] if b else [])))
    return out


SELF_TESTS = [("selftest_matches_1", every, dict(invariants=atomic))]
