"""Models of library operations (the functions whose bodies are not followed)."""
import re

import relang as R
from absint import (NONE, OPTION, RESULT, UNINIT, UNIT, Bail, Res, V, adt, err, find_char, is_adt, is_opq, is_ref,
                    is_str, lin, lin_add, lin_parts, mkstr, ok, rfind_char, some, split_by_dfa, split_first,
                    split_last, vars_in)

EXACT = {}
REGEX = []


def model(*names):
    def deco(f):
        for n in names:
            EXACT[n] = f
        return f
    return deco


def rmodel(*pats):
    def deco(f):
        for p in pats:
            REGEX.append((re.compile(p + r"\Z"), f))
        return f
    return deco


class Models:
    def __init__(self):
        self.cache = {}
        self.symbolic = {}
        self.extra = {}
        self.aggregate = {}

    def lookup(self, f):
        k = f.df
        if k not in self.cache:
            m = self.extra.get(k) or EXACT.get(k)
            if m is None:
                for p, g in REGEX:
                    if p.match(k):
                        m = g
                        break
            self.cache[k] = m
        return self.cache[k]


# ------------------------------------------------------------------------------------ helpers
def S(I, st, v):
    """The segments of a string-like value (through references)."""
    x = v
    while is_ref(x):
        x = I.load(st, x[1], x[2])
    if is_str(x):
        return st.resolve(x[1])
    if isinstance(x, tuple) and x and x[0] == "box":
        return S(I, st, I.load(st, x[1], ()))
    if is_adt(x) and x[1] == "std::borrow::Cow":
        return S(I, st, x[3][0])
    if is_adt(x) and len(x[3]) == 1 and is_str(x[3][0]):
        return st.resolve(x[3][0][1])
    if is_opq(x):
        return I.sym_str(st, "str(%r)" % (st.res(x[1]),))[1]
    raise Bail("string expected, got %r" % (str(x)[:60],))


def text(segs, st=None):
    if st is not None:
        segs = st.words(segs)
    return "".join(segs) if all(isinstance(s, str) for s in segs) else None


def pred_set(I, st, f, byref=False, domain=None):
    """Chars on which the predicate f answers true / false; None if f is not a pure char predicate."""
    s = st.copy()
    n = "?c%d" % len(I.stack)
    s.newvar(n, R.ANYCHAR if domain is None else R.cset(domain))
    base_facts, base_lang = dict(s.facts), {k: v for k, v in s.lang.items() if k != n}
    T = F = R.EMPTY
    x = ("char", V(n))
    if byref:
        x = ("ref", s.alloc(x, "K"), ())
    for r in I.call_value(s, f, [x]):
        if r.kind != "ret":
            return None
        for u, b in I.truth(r.st, r.val):
            l = u.strlang((V(n),))
            if u.facts != base_facts or {k: v for k, v in u.lang.items() if not k.startswith("?c")} != \
                    {k: v for k, v in base_lang.items() if not k.startswith("?c")}:
                return None
            for a, v in st.mem.items():
                if a in u.mem and u.mem[a] != v and a[0] != "C":
                    return None
            if b:
                T = R.union(T, l)
            else:
                F = R.union(F, l)
    return R.single_charset(T) or R.CharSet([]), R.single_charset(F) or R.CharSet([])


def byte_set(I, st, f, byref=False):
    """Chars on whose (first) byte the predicate f answers true / false; None if that is not determined."""
    hi = ("sint", ("hibyte", 0))
    s = st.copy()
    rs = I.call_value(s, f, [("ref", s.alloc(hi, "K"), ()) if byref else hi])
    ans = set()
    for r in rs:
        if r.kind != "ret":
            return None
        ans |= {b for _, b in I.truth(r.st, r.val)}
    ps = pred_set(I, st, f, byref, R.CharSet.of([(0, 127)]))
    if len(ans) != 1 or ps is None:
        return None
    rest = R.CharSet.of([(128, 0x10FFFF)])
    return (ps[0].union(rest), ps[1]) if ans == {True} else (ps[0], ps[1].union(rest))


@rmodel(r"<std::str::Bytes as std::iter::Iterator>::(position|any|all|find)")
def _(I, st, f, a):
    return bytes_search(I, st, a, f.df.split("::")[-1], False)


def bytes_search(I, st, a, m, byref):
    ref, it = it_load(I, st, a[0])
    if not (isinstance(it, tuple) and it[:2] in (("obj", "bytes"), ("obj", "biter"))) or it[3]:
        raise Bail("byte iterator")
    ps = byte_set(I, st, a[1], m == "find" or byref)
    if ps is None:
        raise Bail("byte predicate")
    segs = st.resolve(it[2][1])
    out = []
    if m in ("any", "all"):
        for u, b in split_by_dfa(st, segs, R.star(R.cset(ps[0] if m == "all" else ps[1]))):
            out.append((u, b if m == "all" else not b))
    else:
        for u, r in find_char(st, segs, ps[0]):
            if r is None:
                out.append((u, NONE))
            elif m == "position":
                out.append((u, some(I.str_len(u, mkstr(r[0])))))
            else:
                raise Bail("byte iterator")
    res = []
    for u, v in out:
        u = u.copy()
        if ref is not None:
            I.store(u, ref[1], ref[2], ("opq", ("rest of", it[2]), -1))
        res.append((u, v))
    return res


def pattern(I, st, v):
    """-> ('cs', CharSet) | ('lit', segs)"""
    x = v
    while is_ref(x):
        y = I.load(st, x[1], x[2])
        if isinstance(y, tuple) and y and y[0] in ("clo", "fn"):
            break
        x = y
    if isinstance(x, tuple) and x:
        if x[0] == "char":
            s = st.words((x[1],))
            if len(s) == 1 and isinstance(s[0], str):
                return ("cs", R.CharSet.chars(s[0]))
            return ("lit", s)
        if x[0] == "str":
            s = st.words(x[1])
            t = text(s)
            if t is not None and len(t) == 1:
                return ("cs", R.CharSet.chars(t))
            return ("lit", s)
        if x[0] == "arr":
            cs = R.CharSet([])
            for e in x[1]:
                s = st.words((e[1],))
                if text(s) is None:
                    raise Bail("symbolic char array pattern")
                cs = cs.union(R.CharSet.chars(text(s)))
            return ("cs", cs)
    ps = pred_set(I, st, v)
    if ps is None:
        raise Bail("impure char predicate")
    return ("cs", ps[0])


def pat_lang(p):
    if p[0] == "cs":
        return R.cset(p[1]) if p[1] else R.EMPTY
    t = text(p[1])
    return None if t is None else R.lit(t)


def opq_str(I, st, fname, *args):
    nm = I.term_id(st, fname, tuple(st.res(I.snapshot(st, a)) for a in args))
    return I.sym_str(st, nm)


def panic(st, msg):
    return Res("panic", st, (msg, None, None))


# ------------------------------------------------------------------------------------ str queries
@model("core::str::<impl str>::is_empty", "std::string::String::is_empty")
def _(I, st, f, a):
    return split_by_dfa(st, S(I, st, a[0]), R.EPS)


@model("core::str::<impl str>::len", "std::string::String::len")
def _(I, st, f, a):
    return [(st, I.str_len(st, mkstr(S(I, st, a[0]))))]


def bool_query(mk):
    def g(I, st, f, a):
        s = S(I, st, a[0])
        p = pattern(I, st, a[1])
        l = pat_lang(p)
        if l is None:
            return I.decide(st, (f.df, mkstr(s), mkstr(p[1])))
        return split_by_dfa(st, s, mk(l))
    return g


EXACT["core::str::<impl str>::contains"] = bool_query(R.contains_lang)
EXACT["core::str::<impl str>::starts_with"] = bool_query(R.starts_with)
EXACT["core::str::<impl str>::ends_with"] = bool_query(R.ends_with)


@model("core::str::<impl str>::strip_suffix")
def _(I, st, f, a):
    return strip(I, st, a, False)


@model("core::str::<impl str>::strip_prefix")
def _(I, st, f, a):
    return strip(I, st, a, True)


def strip_words(s, n, front):
    """What is left of a text that starts (ends) with the very parts of another one."""
    s, n = list(s), list(n)
    at = 0 if front else -1
    while n:
        if not s:
            return None
        x, y = s.pop(at), n.pop(at)
        if isinstance(x, str) and isinstance(y, str):
            k = min(len(x), len(y))
            if (x[:k] != y[:k]) if front else (x[len(x) - k:] != y[len(y) - k:]):
                return None
            for l, z in ((s, x), (n, y)):
                z = z[k:] if front else z[:len(z) - k]
                if z:
                    l.insert(0 if front else len(l), z)
        elif x != y:
            return None
    return tuple(s)


def strip(I, st, a, front):
    s = S(I, st, a[0])
    p = pattern(I, st, a[1])
    l = pat_lang(p)
    if l is None:
        rest = strip_words(st.resolve(s), st.resolve(p[1]), front)
        if rest is not None:
            return [(st, some(mkstr(rest)))]
        raise Bail("strip of a symbolic pattern")
    if l == R.EPS:
        return [(st, some(mkstr(s)))]
    out = []
    k = 1 if p[0] == "cs" else len(text(p[1]))
    for t, b in split_by_dfa(st, s, R.starts_with(l) if front else R.ends_with(l)):
        if not b:
            out.append((t, NONE))
            continue
        cur = [(t, s)]
        for _ in range(k):
            nx = []
            for u, rest in cur:
                for w, r in (split_first if front else split_last)(u, rest):
                    if r is not None:
                        nx.append((w, r[1]))
            cur = nx
        out += [(u, some(mkstr(rest))) for u, rest in cur]
    return out


def find_lit(I, st, segs, t, first):
    """Occurrences of a multi-char literal: only decided for literal subjects."""
    w = text(segs, st)
    if w is None:
        # absent?
        r = split_by_dfa(st, segs, R.contains_lang(R.lit(t)))
        out = []
        for u, b in r:
            if not b:
                out.append((u, None))
            else:
                raise Bail("find of a multi-character literal in a symbolic string")
        return out
    i = w.find(t) if first else w.rfind(t)
    if i < 0:
        return [(st, None)]
    return [(st, ((w[:i],), t, (w[i + len(t):],)))]


def find_pat(I, st, segs, p, first):
    if p[0] == "cs":
        return (find_char if first else rfind_char)(st, segs, p[1])
    t = text(p[1])
    if t is None:
        raise Bail("find of a symbolic pattern")
    return find_lit(I, st, segs, t, first)


@model("core::str::<impl str>::find")
def _(I, st, f, a):
    return [(t, NONE if r is None else some(I.str_len(t, mkstr(r[0]))))
            for t, r in find_pat(I, st, S(I, st, a[0]), pattern(I, st, a[1]), True)]


@model("core::str::<impl str>::rfind")
def _(I, st, f, a):
    return [(t, NONE if r is None else some(I.str_len(t, mkstr(r[0]))))
            for t, r in find_pat(I, st, S(I, st, a[0]), pattern(I, st, a[1]), False)]


@model("core::str::<impl str>::split_once")
def _(I, st, f, a):
    return [(t, NONE if r is None else some(("tup", (mkstr(r[0]), mkstr(r[2])))))
            for t, r in find_pat(I, st, S(I, st, a[0]), pattern(I, st, a[1]), True)]


@model("core::str::<impl str>::rsplit_once")
def _(I, st, f, a):
    return [(t, NONE if r is None else some(("tup", (mkstr(r[0]), mkstr(r[2])))))
            for t, r in find_pat(I, st, S(I, st, a[0]), pattern(I, st, a[1]), False)]


@model("core::str::<impl str>::trim_end_matches", "core::str::<impl str>::trim_right_matches")
def _(I, st, f, a):
    return trim(I, st, a, False, True)


@model("core::str::<impl str>::trim_start_matches", "core::str::<impl str>::trim_left_matches")
def _(I, st, f, a):
    return trim(I, st, a, True, False)


@model("core::str::<impl str>::trim_matches")
def _(I, st, f, a):
    return trim(I, st, a, True, True)


WS = R.CharSet.of([(9, 13), (0x20, 0x20), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
                   (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])


@model("core::str::<impl str>::trim")
def _(I, st, f, a):
    return trim_cs(st, S(I, st, a[0]), WS, True, True)


@model("core::str::<impl str>::trim_start")
def _(I, st, f, a):
    return trim_cs(st, S(I, st, a[0]), WS, True, False)


@model("core::str::<impl str>::trim_end")
def _(I, st, f, a):
    return trim_cs(st, S(I, st, a[0]), WS, False, True)


def trim(I, st, a, front, back):
    p = pattern(I, st, a[1])
    if p[0] != "cs":
        raise Bail("trim of a literal")
    return trim_cs(st, S(I, st, a[0]), p[1], front, back)


def trim_cs(st, segs, cs, front, back):
    cur = [(st, segs)]
    if front:
        nx = []
        for t, s in cur:
            for u, r in find_char(t, s, cs.compl()):
                nx.append((u, () if r is None else (r[1],) + tuple(r[2])))
        cur = nx
    if back:
        nx = []
        for t, s in cur:
            for u, r in rfind_char(t, s, cs.compl()):
                nx.append((u, () if r is None else tuple(r[0]) + (r[1],)))
        cur = nx
    return [(t, mkstr(s)) for t, s in cur]


@rmodel(r"core::str::<impl str>::(as_str|as_mut_str|to_owned|into_string|to_string|into_boxed_str)",
        r"std::string::String::(as_str|into_boxed_str|as_mut_str|from_utf8_lossy_owned)",
        r"<std::string::String as std::(ops::Deref|ops::DerefMut|convert::AsRef<str>|borrow::Borrow<str>|clone::Clone|convert::From<.*>)>::(deref|deref_mut|as_ref|borrow|clone|from)",
        r"<str as std::(convert::AsRef<str>|borrow::Borrow<str>)>::(as_ref|borrow)",
        r"(alloc|core|std)::str::<impl std::borrow::ToOwned for str>::to_owned",
        r"<str as std::borrow::ToOwned>::to_owned",
        r"alloc::str::<impl str>::(into_string|to_owned|into_boxed_str)",
        r"std::str::<impl str>::(into_string|to_owned|into_boxed_str)",
        r"<std::boxed::Box<str> as .*>::(from|clone)",
        r"std::str::<impl std::borrow::ToOwned for str>::to_owned",
        r"alloc::string::<impl std::convert::From<std::string::String> for .*>::from",
        r"std::string::String::into_string")
def _(I, st, f, a):
    return [(st, mkstr(S(I, st, a[0])))]


@rmodel(r".*SpecToString>::spec_to_string", r".*string::ToString>::to_string")
def _(I, st, f, a):
    x = I.deref_all(st, a[0])
    if is_str(x):
        return [(st, mkstr(st.resolve(x[1])))]
    if isinstance(x, tuple) and x and x[0] == "char":
        return [(st, mkstr(st.resolve((x[1],))))]
    if isinstance(x, int) and not isinstance(x, bool):
        return [(st, mkstr((str(x),)))]
    if isinstance(x, bool):
        return [(st, mkstr(("true" if x else "false",)))]
    return NotImplemented


@model("std::string::String::new")
def _(I, st, f, a):
    return [(st, mkstr(()))]


@model("std::string::String::with_capacity")
def _(I, st, f, a):
    return [(st, mkstr(()))]


@rmodel(r"<std::string::String as std::default::Default>::default", r"<&?str as std::default::Default>::default",
        r"std::str::<impl std::default::Default for &str>::default", r"core::str::<impl std::default::Default for &str>::default")
def _(I, st, f, a):
    return [(st, mkstr(()))]


@model("std::string::String::push_str", "std::string::String::push")
def _(I, st, f, a):
    st = st.copy()
    s = S(I, st, a[0])
    x = I.deref_all(st, a[1])
    add = (x[1],) if isinstance(x, tuple) and x[0] == "char" else S(I, st, a[1])
    I.store(st, a[0][1], a[0][2], mkstr(s + tuple(st.resolve(add))))
    return [(st, UNIT)]


@rmodel(r"<std::string::String as std::fmt::Write>::(write_str|write_char)")
def _(I, st, f, a):
    r = EXACT["std::string::String::push_str"](I, st, f, a)
    return [(s, ok(UNIT)) for s, _ in r]


@model("std::string::String::insert_str", "std::string::String::insert")
def _(I, st, f, a):
    out = []
    x = I.deref_all(st, a[2])
    add = (x[1],) if isinstance(x, tuple) and x[0] == "char" else S(I, st, a[2])
    for t, lr in locate(I, st.copy(), S(I, st, a[0]), a[1]):
        if lr is None:
            out.append(panic(t, "String::insert out of bounds"))
            continue
        I.store(t, a[0][1], a[0][2], mkstr(tuple(lr[0]) + tuple(t.resolve(add)) + tuple(lr[1])))
        out.append((t, UNIT))
    return out


@model("std::string::String::pop")
def _(I, st, f, a):
    out = []
    for t, r in split_last(st.copy(), S(I, st, a[0])):
        t = t.copy()
        if r is None:
            out.append((t, NONE))
        else:
            I.store(t, a[0][1], a[0][2], mkstr(r[1]))
            out.append((t, some(("char", r[0]))))
    return out


@model("std::string::String::remove")
def _(I, st, f, a):
    out = []
    for t, lr in locate(I, st.copy(), S(I, st, a[0]), a[1]):
        if lr is None:
            out.append(panic(t, "String::remove out of bounds"))
            continue
        for u, r in split_first(t.copy(), tuple(lr[1])):
            u = u.copy()
            if r is None:
                out.append(panic(u, "String::remove at the end"))
                continue
            I.store(u, a[0][1], a[0][2], mkstr(tuple(u.resolve(lr[0])) + tuple(r[1])))
            out.append((u, ("char", r[0])))
    return out


@model("std::string::String::split_off")
def _(I, st, f, a):
    out = []
    for t, lr in locate(I, st.copy(), S(I, st, a[0]), a[1]):
        if lr is None:
            out.append(panic(t, "String::split_off out of bounds"))
            continue
        t = t.copy()
        I.store(t, a[0][1], a[0][2], mkstr(lr[0]))
        out.append((t, mkstr(lr[1])))
    return out


@model("std::string::String::truncate")
def _(I, st, f, a):
    out = []
    for t, lr in locate(I, st.copy(), S(I, st, a[0]), a[1]):
        if lr is None:
            t.note("truncate")
            out.append((t, UNIT))
            continue
        t = t.copy()
        I.store(t, a[0][1], a[0][2], mkstr(lr[0]))
        out.append((t, UNIT))
    return out


@model("std::string::String::clear")
def _(I, st, f, a):
    st = st.copy()
    I.store(st, a[0][1], a[0][2], mkstr(()))
    return [(st, UNIT)]


@rmodel(r"<std::string::String as std::ops::Add<&str>>::add")
def _(I, st, f, a):
    return [(st, mkstr(S(I, st, a[0]) + S(I, st, a[1])))]


@rmodel(r"<std::string::String as std::ops::AddAssign<&str>>::add_assign")
def _(I, st, f, a):
    r = EXACT["std::string::String::push_str"](I, st, f, a)
    return r


@rmodel(r".*PartialEq.*for (str|std::string::String|&?str)>::(eq|ne)",
        r"<(std::string::String|str|&str|std::borrow::Cow<.*>) as std::cmp::PartialEq(<.*>)?>::(eq|ne)",
        r"<impl std::cmp::PartialEq.*for (str|std::string::String|&str)>::(eq|ne)",
        r"core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)",
        r"(alloc|std)::string::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)")
def _(I, st, f, a):
    ne = f.df.endswith("::ne")
    return [(t, b != ne) for t, b in I.str_eq(st, S(I, st, a[0]), S(I, st, a[1]))]


@rmodel(r"<(std::string::String|str) as std::cmp::(Ord|PartialOrd(<.*>)?)>::(cmp|partial_cmp|lt|le|gt|ge|max|min)",
        r"core::str::traits::<impl std::cmp::(Ord|PartialOrd) for str>::(cmp|partial_cmp|lt|le|gt|ge)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    return ordering(I, st, mkstr(S(I, st, a[0])), mkstr(S(I, st, a[1])), m, "scmp")


def strip_common(a, b):
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if x == y:
            a.pop(0), b.pop(0)
        elif isinstance(x, str) and isinstance(y, str):
            n = 0
            while n < min(len(x), len(y)) and x[n] == y[n]:
                n += 1
            a[0], b[0] = x[n:], y[n:]
            if not a[0]:
                a.pop(0)
            if not b[0]:
                b.pop(0)
            if n == 0:
                break
        else:
            break
    return tuple(a), tuple(b)


def closed_order(st, tag, p, q):
    """What the known comparisons imply about p and q: 0 (less), 2 (greater) or None."""
    less = {}
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k[0] == tag:
            k = st.res(k)
            lo, hi = (k[1], k[2]) if v == 0 else (k[2], k[1])
            less.setdefault(lo, set()).add(hi)
    for a, b, r in ((p, q, 0), (q, p, 2)):
        todo, seen = [a], {a}
        while todo:
            for z in less.get(todo.pop(), ()):
                if z == b:
                    return r
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
    return None


def seq_term(a, b):
    a, b = tuple(a), tuple(b)
    if repr(b) < repr(a):
        a, b = b, a
    return ("seq", ("str", a), ("str", b))


def ordering(I, st, x, y, m, tag):
    """Three-way comparison of two texts: equality is text equality, the rest an uninterpreted
    antisymmetric relation."""
    if m in ("max", "min"):
        raise Bail("max/min")
    out = []
    known = closed_order(st, tag, st.res(x), st.res(y))
    if known is not None:
        st = st.copy()
        k = seq_term(st.res(x)[1], st.res(y)[1])
        if I.fact(st, k) is None:
            st.facts[k] = False
    for t, same in [(st, False)] if known is not None else I.str_eq(st, x[1], y[1]):
        if same:
            out.append((t, 1))
            continue
        p, q = t.res(x), t.res(y)
        p, q = strip_common(p[1], q[1])
        if all(isinstance(z, str) for z in p[:1] + q[:1]) and (p or q):
            # decided by the first character
            if not p or not q:
                out.append((t, 0 if not p else 2))
            else:
                out.append((t, 0 if p[0][0] < q[0][0] else 2))
            continue
        p, q = mkstr(p), mkstr(q)
        flip = repr(q) < repr(p)
        k = (tag, q, p) if flip else (tag, p, q)
        v = t.facts.get(k)
        if v is None:
            for k2, v2 in t.facts.items():
                if isinstance(k2, tuple) and k2[0] == tag:
                    r = t.res(k2)
                    if (r[1], r[2]) == (k[1], k[2]):
                        v = v2
                    elif (r[2], r[1]) == (k[1], k[2]):
                        v = 2 - v2
        if v is not None:
            out.append((t, 2 - v if flip else v))
            continue
        v = closed_order(t, tag, p, q)
        if v is not None:
            out.append((t, v))
            continue
        for v in (0, 2):
            s = t.copy()
            s.facts[k] = v
            out.append((s, 2 - v if flip else v))
    return ordered(out, m)


def ordered(out, m):
    res = []
    for s, v in out:
        if m == "cmp":
            res.append((s, adt("std::cmp::Ordering", v)))
        elif m == "partial_cmp":
            res.append((s, some(adt("std::cmp::Ordering", v))))
        else:
            res.append((s, {"lt": v == 0, "le": v <= 1, "gt": v == 2, "ge": v >= 1}[m]))
    return res


# ------------------------------------------------------------------------------------ slicing
def locate(I, st, segs, pos):
    """Split the string at byte position pos: [(st, (left, right)) | (st, None)] (None: out of range or
    not a boundary)."""
    segs = list(st.resolve(segs))
    lp = I.as_lin(st, pos)
    if lp is None:
        raise Bail("symbolic string position")
    c, t = lp
    t = dict(t)
    left = []
    i = 0

    def flen(s):
        if isinstance(s, str):
            return len(s.encode("utf-8"))
        return R.fixed_bytelen(st.lang[s.n]) if s.n in st.lang else None
    while i < len(segs):
        if c == 0 and not any(t.values()):
            return [(st, (tuple(left), tuple(segs[i:])))]
        s = segs[i]
        fl = flen(s)
        if fl is not None:
            if c >= fl:
                c -= fl
                left.append(s)
                i += 1
                continue
            if isinstance(s, str) and not any(t.values()) and c > 0:
                b = s.encode("utf-8")
                try:
                    x, y = b[:c].decode("utf-8"), b[c:].decode("utf-8")
                except UnicodeDecodeError:
                    return [(st, None)]
                return [(st, (tuple(left) + (x,), (y,) + tuple(segs[i + 1:])))]
            break
        if t.get(s.n, 0) >= 1:
            t[s.n] -= 1
            left.append(s)
            i += 1
            continue
        break
    t = {k: v for k, v in t.items() if v}
    if i == len(segs):
        if c == 0 and not t:
            return [(st, (tuple(left), ()))]
        if not t and c > 0:
            return [(st, None)]
        if c > 0 or any(k > 0 for k in t.values()):
            raise Bail("string position beyond the end")
    # a constant offset into a variable segment
    if not t and 0 < c <= 16:
        out = []
        for u, r in split_first(st, segs[i:]):
            if r is None:
                out.append((u, None))
                continue
            for n in (1, 2, 3, 4):
                w = (R.W1, R.W2, R.W3, R.W4)[n - 1]
                for x, b in split_by_dfa(u, (r[0],), R.cset(w)):
                    if not b:
                        u = x
                        continue
                    if n > c:
                        out.append((x, None))
                        continue
                    for y, lr in locate(I, x, r[1], c - n):
                        if lr is None:
                            out.append((y, None))
                        else:
                            out.append((y, (tuple(left) + tuple(y.resolve((r[0],))) + tuple(lr[0]), lr[1])))
                    break
                else:
                    break
                # remaining widths handled through the negative branch state
                neg = [x for x, b in split_by_dfa(u, (r[0],), R.cset(w)) if not b]
                if not neg:
                    break
                u = neg[0]
        return out
    # from the right
    tot = I.str_len(st, mkstr(segs))
    d = lin_add(lin_parts(tot) if isinstance(tot, (tuple,)) else (tot, {}), lp, -1)   # distance from the end
    dc, dt = I.as_lin(st, d)
    j = len(segs)
    right = []
    dt = dict(dt)
    while j > 0:
        if dc == 0 and not any(dt.values()):
            return [(st, (tuple(segs[:j]), tuple(right)))]
        s = segs[j - 1]
        fl = flen(s)
        if fl is not None:
            if dc >= fl:
                dc -= fl
                right.insert(0, s)
                j -= 1
                continue
            if isinstance(s, str) and not any(dt.values()) and dc > 0:
                b = s.encode("utf-8")
                try:
                    x, y = b[:-dc].decode("utf-8"), b[-dc:].decode("utf-8")
                except UnicodeDecodeError:
                    return [(st, None)]
                return [(st, (tuple(segs[:j - 1]) + (x,), (y,) + tuple(right)))]
            break
        if dt.get(s.n, 0) >= 1:
            dt[s.n] -= 1
            right.insert(0, s)
            j -= 1
            continue
        break
    dt = {k: v for k, v in dt.items() if v}
    if j == 0 and dc == 0 and not dt:
        return [(st, ((), tuple(segs)))]
    if not dt and 0 < dc <= 16 and j > 0:
        out = []
        for u, r in split_last(st, segs[:j]):
            if r is None:
                out.append((u, None))
                continue
            cur = u
            for n in (1, 2, 3, 4):
                w = (R.W1, R.W2, R.W3, R.W4)[n - 1]
                pos_, neg_ = [], []
                for x, b in split_by_dfa(cur, (r[0],), R.cset(w)):
                    (pos_ if b else neg_).append(x)
                for x in pos_:
                    if n > dc:
                        out.append((x, None))
                    else:
                        newpos = I.str_len(x, mkstr(r[1]))
                        lpn = lin_parts(newpos) if not isinstance(newpos, int) else (newpos, {})
                        tgt = lin_add(lpn, (dc - n, {}), -1)
                        for y, lr in locate(I, x, r[1], tgt):
                            if lr is None:
                                out.append((y, None))
                            else:
                                out.append((y, (lr[0], tuple(lr[1]) + tuple(y.resolve((r[0],))) + tuple(right))))
                if not neg_:
                    break
                cur = neg_[0]
        return out
    if dt == {} and dc < 0:
        return [(st, None)]
    raise Bail("unresolved string position %r in %r" % (lp, segs))


def range_bounds(st, I, r):
    if not is_adt(r):
        raise Bail("range %r" % (r,))
    n = r[1].split("::")[-1]
    if n == "Range":
        return r[3][0], r[3][1]
    if n == "RangeFrom":
        return r[3][0], None
    if n == "RangeTo":
        return None, r[3][0]
    if n == "RangeFull":
        return None, None
    if n in ("RangeInclusive", "RangeToInclusive"):
        hi = r[3][1] if n == "RangeInclusive" else r[3][0]
        lo = r[3][0] if n == "RangeInclusive" else None
        l = I.as_lin(st, hi)
        if l is None:
            raise Bail("range bound")
        return lo, lin(l[0] + 1, l[1].items())
    raise Bail("range " + n)


def str_slice(I, st, segs, r):
    lo, hi = range_bounds(st, I, r)
    out = []
    for t, lr in (locate(I, st, segs, hi) if hi is not None else [(st, (tuple(segs), ()))]):
        if lr is None:
            out.append((t, None))
            continue
        left = lr[0]
        if lo is None:
            out.append((t, mkstr(left)))
            continue
        # begin > end?
        try:
            r2 = locate(I, t, left, lo)
        except Bail:
            if hi is not None:
                a, b = I.as_lin(t, hi), I.as_lin(t, lo)
                d = lin_add(a, b, -1)
                res = I.lin_nonneg(t, *(lin_parts(d)))
                if all(not x for _, x in res):
                    out.append((t, None))
                    continue
            raise
        for u, lr2 in r2:
            out.append((u, None if lr2 is None else mkstr(lr2[1])))
    return out


@rmodel(r"core::str::traits::<impl std::ops::Index<.*> for str>::index",
        r"<std::string::String as std::ops::Index<.*>>::index",
        r"std::string::<impl std::ops::Index<.*> for .*String>::index",
        r"<str as std::ops::Index<.*>>::index")
def _(I, st, f, a):
    return [(t, v) if v is not None else panic(t, "str slice index out of bounds or not a char boundary")
            for t, v in str_slice(I, st, S(I, st, a[0]), a[1])]


@model("core::str::<impl str>::get")
def _(I, st, f, a):
    return [(t, some(v) if v is not None else NONE) for t, v in str_slice(I, st, S(I, st, a[0]), a[1])]


@model("core::str::<impl str>::split_at")
def _(I, st, f, a):
    return [(t, ("tup", (mkstr(lr[0]), mkstr(lr[1])))) if lr is not None else panic(t, "split_at out of bounds")
            for t, lr in locate(I, st, S(I, st, a[0]), a[1])]


@model("core::str::<impl str>::is_char_boundary")
def _(I, st, f, a):
    return [(t, lr is not None) for t, lr in locate(I, st, S(I, st, a[0]), a[1])]


# ------------------------------------------------------------------------------------ str iterators
def obj(kind, *xs):
    return ("obj", kind) + xs


@model("core::str::<impl str>::chars")
def _(I, st, f, a):
    return [(st, obj("chars", mkstr(S(I, st, a[0]))))]


@model("core::str::<impl str>::char_indices")
def _(I, st, f, a):
    return [(st, obj("charidx", mkstr(S(I, st, a[0])), 0))]


@model("core::str::<impl str>::bytes")
def _(I, st, f, a):
    return [(st, obj("bytes", mkstr(S(I, st, a[0])), 0))]


@model("core::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes")
def _(I, st, f, a):
    return [(st, obj("bytes[]", mkstr(S(I, st, a[0]))))]


def it_load(I, st, r):
    v = r
    ref = None
    while is_ref(v):
        ref = v
        v = I.load(st, v[1], v[2])
    return ref, v


def chars_next(I, st, a, back=False):
    ref, it = it_load(I, st, a)
    if not (isinstance(it, tuple) and it[:2] == ("obj", "chars")):
        raise Bail("chars iterator %r" % (it,))
    out = []
    for t, r in (split_last if back else split_first)(st.copy(), it[2][1]):
        t = t.copy()
        if r is None:
            I.store(t, ref[1], ref[2], obj("chars", mkstr(())))
            out.append((t, NONE))
        else:
            I.store(t, ref[1], ref[2], obj("chars", mkstr(r[1])))
            out.append((t, some(("char", r[0]))))
    return out


@rmodel(r"<std::str::Chars as std::iter::Iterator>::next")
def _(I, st, f, a):
    return chars_next(I, st, a[0])


@rmodel(r"<std::str::Chars as std::iter::Iterator>::(nth|advance_by)",
        r"<std::str::Chars as std::iter::DoubleEndedIterator>::(nth_back|advance_back_by)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    n = st.res(a[1])
    if not isinstance(n, int) or n > 8:
        raise Bail("chars." + m)
    back = m.endswith("back") or m.endswith("back_by")
    cur, out = [st], []
    for k in range(n + (1 if m.startswith("nth") else 0)):
        nxt = []
        for s in cur:
            for t, v in chars_next(I, s, a[0], back):
                if v == NONE:
                    out.append((t, NONE if m.startswith("nth") else err(n - k)))
                elif m.startswith("nth") and k == n:
                    out.append((t, v))
                else:
                    nxt.append(t)
        cur = nxt
    if not m.startswith("nth"):
        out += [(s, ok(UNIT)) for s in cur]
    return out


@rmodel(r"<std::str::Chars as std::iter::DoubleEndedIterator>::next_back", r"<std::str::Chars as std::iter::Iterator>::last")
def _(I, st, f, a):
    if f.df.endswith("last"):
        x = st.copy()
        ad = x.alloc(I.deref_all(x, a[0]), "K")
        a = [("ref", ad, ())]
        st = x
    return chars_next(I, st, a[0], True)


@rmodel(r"std::str::Chars::as_str")
def _(I, st, f, a):
    return [(st, I.deref_all(st, a[0])[2])]


@rmodel(r"<std::str::Chars as std::clone::Clone>::clone", r"<std::str::CharIndices as std::clone::Clone>::clone",
        r"<std::str::Split<.*> as std::clone::Clone>::clone")
def _(I, st, f, a):
    return [(st, I.deref_all(st, a[0]))]


@rmodel(r"<std::str::Chars as std::iter::Iterator>::count")
def _(I, st, f, a):
    it = I.deref_all(st, a[0])
    segs = st.resolve(it[2][1])
    t = text(segs, st)
    if t is not None:
        return [(st, len(t))]
    out = []
    cur = st
    for n in range(4):
        l = R.EPS
        for _ in range(n):
            l = R.concat(l, R.ANYCHAR)
        nxt = None
        for u, b in split_by_dfa(cur, segs, l):
            if b:
                out.append((u, n))
            else:
                nxt = u
        if nxt is None:
            return out
        cur = nxt
    out.append((cur, ("atl", 4)))
    return out


@rmodel(r"<std::str::CharIndices as std::iter::Iterator>::next")
def _(I, st, f, a):
    ref, it = it_load(I, st, a[0])
    out = []
    for t, r in split_first(st.copy(), it[2][1]):
        t = t.copy()
        if r is None:
            I.store(t, ref[1], ref[2], obj("charidx", mkstr(()), it[3]))
            out.append((t, NONE))
        else:
            pos = t.res(it[3])
            ln = I.str_len(t, mkstr((r[0],)))
            np = lin_add(lin_parts(pos), lin_parts(ln))
            I.store(t, ref[1], ref[2], obj("charidx", mkstr(r[1]), np))
            out.append((t, some(("tup", (pos, ("char", r[0]))))))
    return out


@rmodel(r"<std::str::CharIndices as std::iter::DoubleEndedIterator>::next_back")
def _(I, st, f, a):
    ref, it = it_load(I, st, a[0])
    out = []
    for t, r in split_last(st.copy(), it[2][1]):
        t = t.copy()
        if r is None:
            I.store(t, ref[1], ref[2], obj("charidx", mkstr(()), it[3]))
            out.append((t, NONE))
        else:
            I.store(t, ref[1], ref[2], obj("charidx", mkstr(r[1]), it[3]))
            pos = lin_add(lin_parts(t.res(it[3])), lin_parts(I.str_len(t, mkstr(r[1]))))
            out.append((t, some(("tup", (pos, ("char", r[0]))))))
    return out


@rmodel(r"<std::str::Bytes as std::iter::Iterator>::next")
def _(I, st, f, a):
    # ("obj", "bytes", rest, n): n continuation bytes of the previous character are still to come
    ref, it = it_load(I, st, a[0])
    if it[3]:
        st = st.copy()
        I.store(st, ref[1], ref[2], obj("bytes", it[2], it[3] - 1))
        return [(st, some(("sint", ("hibyte", it[3]))))]
    out = []
    for t, r in split_first(st.copy(), it[2][1]):
        if r is None:
            t = t.copy()
            I.store(t, ref[1], ref[2], obj("bytes", mkstr(()), 0))
            out.append((t, NONE))
            continue
        for w, u in by_width(t, r[0]):
            u = u.copy()
            I.store(u, ref[1], ref[2], obj("bytes", mkstr(r[1]), w - 1))
            out.append((u, some(("char", r[0]) if w == 1 else ("sint", ("hibyte", 0)))))
    return out


def by_width(st, seg):
    """The cases of how many bytes a character takes."""
    cur, out = st, []
    for w, cs in ((1, R.W1), (2, R.W2), (3, R.W3)):
        nxt = None
        for u, b in split_by_dfa(cur, (seg,), R.cset(cs)):
            if b:
                out.append((w, u))
            else:
                nxt = u
        if nxt is None:
            return out
        cur = nxt
    return out + [(4, cur)]


@rmodel(r"(std|alloc|core)::(slice|str)::.*::(concat|join)")
def _(I, st, f, a):
    x = I.deref_all(st, a[0])
    if is_adt(x) and x[1] == "std::vec::Vec":
        return NotImplemented
    if not (isinstance(x, tuple) and x and x[0] == "arr"):
        return NotImplemented
    try:
        parts = [S(I, st, y) for y in x[1]]
        sep = S(I, st, a[1]) if len(a) > 1 else ()
    except Bail:
        return NotImplemented
    out = ()
    for i, y in enumerate(parts):
        out += (tuple(sep) if i else ()) + tuple(y)
    return [(st, mkstr(st.resolve(out)))]


def byte_at(I, st, v, ix):
    """The byte at a position near one of the ends, all other ones before it being ASCII characters."""
    segs = st.resolve(v[1])
    end = False
    if ix[0] == "ci":
        k, end = (ix[1] - 1, True) if ix[3] else (ix[1], False)
    else:
        k = st.res(ix[1])
        if not isinstance(k, int):
            n, lp = lin_parts(st.res(I.str_len(st, mkstr(segs)))), lin_parts(k)
            k = lin_add(n, lp, -1) if n and lp else None
            if not isinstance(k, int):
                raise Bail("byte at an undetermined position")
            k, end = k - 1, True
    if not 0 <= k <= 4:
        raise Bail("byte at position %r" % (k,))
    cur, out = [(st.copy(), segs)], []
    for j in range(k + 1):
        nxt = []
        for s, rest in cur:
            for t, r in (split_last if end else split_first)(s, rest):
                if r is None:
                    continue
                for w, u in by_width(t, r[0]):
                    if j == k:
                        out.append((u, ("char", r[0]) if w == 1 else ("sint", ("hibyte", 1 if end else 0))))
                    elif w == 1:
                        nxt.append((u, r[1]))
                    else:
                        raise Bail("byte position within text that is not ASCII")
        cur = nxt
    return out


def REGEX_CALL(pat):
    return next(fn for p, fn in REGEX if p.match(pat))


@rmodel(r"<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter")
def _(I, st, f, a):
    """The characters of a text: ("obj", "chars[]", text)."""
    it = I.deref_all(st, a[0])
    if isinstance(it, tuple) and it[:2] == ("obj", "chars"):
        return [(st, obj("chars[]", it[2]))]
    return NotImplemented


def chars_at(I, st, x, k, back=False):
    """The k-th character: [(state, seg or None, rest)]"""
    cur = [(st, x[1], None)]
    out = []
    for i in range(k + 1):
        nxt = []
        for s, segs, _ in cur:
            for t, r in (split_last if back else split_first)(s.copy(), segs):
                if r is None:
                    out.append((t, None, ()))
                else:
                    nxt.append((t, r[1], r[0]))
        cur = nxt
    return out + [(t, c, rest) for t, rest, c in cur]


def chars_from(I, st, x, k):
    out = [(st, x[1])] if k == 0 else []
    for t, c, rest in chars_at(I, st, x, k - 1) if k else ():
        out.append((t, None if c is None else rest))
    return out


@rmodel(r"<std::vec::Vec<T, A> as std::ops::Index<I>>::index", r"core::slice::index::<impl std::ops::Index<I> for \[T\]>::index")
def _(I, st, f, a):
    x = I.deref_all(st, a[0])
    if not (isinstance(x, tuple) and x[:2] == ("obj", "chars[]")):
        return NotImplemented
    i = st.res(a[1])
    out = []
    if isinstance(i, int):
        for t, c, _ in chars_at(I, st, x[2], i):
            t = t.copy()
            if c is None:
                out.append(panic(t, "index out of bounds"))
            else:
                out.append((t, ("ref", t.alloc(("char", c), "K"), ())))
        return out
    if is_adt(i) and i[1].endswith("RangeFrom") and isinstance(i[3][0], int):
        for t, rest in chars_from(I, st, x[2], i[3][0]):
            t = t.copy()
            if rest is None:
                out.append(panic(t, "range start index out of range"))
            else:
                out.append((t, ("ref", t.alloc(obj("chars[]", mkstr(rest)), "K"), ())))
        return out
    if is_adt(i) and i[1].endswith("RangeFull"):
        return [(st, a[0])]
    raise Bail("index of a character vector")


@rmodel(r"<std::str::(Chars|CharIndices|Bytes) as std::iter::Iterator>::size_hint")
def _(I, st, f, a):
    # only a hint: nothing may depend on it
    return [(st, ("tup", (0, NONE)))]


@rmodel(r"<.* as std::iter::adapters::filter::SpecAssumeCount>::assume_count_le_upper_bound")
def _(I, st, f, a):
    return [(st, UNIT)]


@model("core::str::<impl str>::matches")
def _(I, st, f, a):
    return [(st, obj("matches", mkstr(S(I, st, a[0])), pattern(I, st, a[1]), False))]


@model("core::str::<impl str>::match_indices")
def _(I, st, f, a):
    return [(st, obj("matches", mkstr(S(I, st, a[0])), pattern(I, st, a[1]), 0))]


@rmodel(r"<std::str::(Matches|MatchIndices)<.*> as std::iter::Iterator>::next")
def _(I, st, f, a):
    ref, it = it_load(I, st, a[0])
    _, _, s, p, pos = it
    out = []
    for t, r in find_pat(I, st.copy(), s[1], p, True):
        t = t.copy()
        if r is None:
            I.store(t, ref[1], ref[2], obj("matches", mkstr(()), p, pos))
            out.append((t, NONE))
            continue
        pre, m, rest = r
        m = mkstr(m if isinstance(m, tuple) and not isinstance(m, V) else (m,))
        if pos is False:
            v, np = m, False
        else:
            at = lin_add(lin_parts(t.res(pos)), lin_parts(I.str_len(t, mkstr(pre))))
            np = lin_add(lin_parts(at), lin_parts(I.str_len(t, m)))
            v = ("tup", (at, m))
        I.store(t, ref[1], ref[2], obj("matches", mkstr(rest), p, np))
        out.append((t, some(v)))
    return out


@rmodel(r"core::slice::<impl \[T\]>::(is_empty|len|first|last|iter|contains|starts_with|ends_with)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    x = I.deref_all(st, a[0])
    if isinstance(x, tuple) and x[:2] == ("obj", "bytes[]"):
        segs = st.resolve(x[2][1])
        if m == "is_empty":
            return split_by_dfa(st, segs, R.EPS)
        if m == "len":
            return [(st, I.str_len(st, mkstr(segs)))]
        if m in ("first", "last"):
            out = []
            for t, r in (split_first if m == "first" else split_last)(st.copy(), segs):
                if r is None:
                    out.append((t, NONE))
                    continue
                for w, u in by_width(t, r[0]):
                    u = u.copy()
                    ad = u.alloc(("char", r[0]) if w == 1 else ("sint", ("hibyte", 0 if m == "first" else 1)), "K")
                    out.append((u, some(("ref", ad, ()))))
            return out
        if m == "iter":
            return [(st, obj("biter", mkstr(segs), 0))]
        raise Bail("byte slice " + m)
    if isinstance(x, tuple) and x[:2] == ("obj", "chars[]"):
        segs = st.resolve(x[2][1])
        if m == "is_empty":
            return split_by_dfa(st, segs, R.EPS)
        if m == "iter":
            return [(st, obj("citer", mkstr(segs)))]
        if m == "len":
            return REGEX_CALL(r"<std::str::Chars as std::iter::Iterator>::count")(I, st, f, [obj("chars", mkstr(segs))])
        if m in ("first", "last"):
            out = []
            for t, c, _ in chars_at(I, st, x[2], 0, m == "last"):
                t = t.copy()
                out.append((t, NONE if c is None else some(("ref", t.alloc(("char", c), "K"), ()))))
            return out
        raise Bail("character slice " + m)
    if isinstance(x, tuple) and x and x[0] == "arr":
        if m == "is_empty":
            return [(st, len(x[1]) == 0)]
        if m == "len":
            return [(st, len(x[1]))]
        ref, _ = it_load(I, st, a[0])
        n = len(x[1])
        if m in ("first", "last"):
            if not n:
                return [(st, NONE)]
            return [(st, some(("ref", ref[1], ref[2] + (("f", 0 if m == "first" else n - 1),))))]
        if m == "iter":
            return [(st, obj("arriter", ref, 0, n))]
        if m == "contains":
            y = I.deref_all(st, a[1])
            cur, out = [st], []
            for e in x[1]:
                nx = []
                for s in cur:
                    for u, b in value_eq(I, s, e, y):
                        if b:
                            out.append((u, True))
                        else:
                            nx.append(u)
                cur = nx
            return out + [(s, False) for s in cur]
    return NotImplemented


def value_eq(I, st, x, y):
    if is_str(x) and is_str(y):
        return I.str_eq(st, x[1], y[1])
    out = []
    for s, v in I.binop(st, "Eq", x, y):
        out += I.truth(s, v)
    return out


@rmodel(r"<std::slice::Iter<.*> as std::iter::Iterator>::next", r"<std::slice::Iter<.*> as std::iter::DoubleEndedIterator>::next_back")
def _(I, st, f, a):
    ref, it = it_load(I, st, a[0])
    if isinstance(it, tuple) and it[:2] == ("obj", "biter") and f.df.endswith("next"):
        st = st.copy()
        ad = st.alloc(obj("bytes", it[2], it[3]), "K")
        out = []
        for t, v in REGEX_CALL(r"<std::str::Bytes as std::iter::Iterator>::next")(I, st, f, [("ref", ad, ())]):
            t = t.copy()
            b = t.mem[ad]
            I.store(t, ref[1], ref[2], obj("biter", b[2], b[3]))
            if v != NONE:
                k = t.alloc(v[3][0], "K")
                v = some(("ref", k, ()))
            out.append((t, v))
        return out
    if isinstance(it, tuple) and it[:2] == ("obj", "citer"):
        st = st.copy()
        ad = st.alloc(obj("chars", it[2]), "K")
        out = []
        for t, v in chars_next(I, st, ("ref", ad, ()), f.df.endswith("back")):
            t = t.copy()
            I.store(t, ref[1], ref[2], obj("citer", t.mem[ad][2]))
            if v != NONE:
                k = t.alloc(v[3][0], "K")
                v = some(("ref", k, ()))
            out.append((t, v))
        return out
    if not (isinstance(it, tuple) and it[:2] == ("obj", "arriter")):
        raise Bail("slice iterator")
    _, _, base, i, n = it
    st = st.copy()
    if i >= n:
        return [(st, NONE)]
    if f.df.endswith("back"):
        I.store(st, ref[1], ref[2], obj("arriter", base, i, n - 1))
        k = n - 1
    else:
        I.store(st, ref[1], ref[2], obj("arriter", base, i + 1, n))
        k = i
    return [(st, some(("ref", base[1], base[2] + (("f", k),))))]


@rmodel(r"<std::slice::Iter<.*> as std::iter::Iterator>::(any|all|find|position|for_each|fold|count|find_map)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    ref, it = it_load(I, st, a[0])
    if isinstance(it, tuple) and it[:2] == ("obj", "citer") and m in ("any", "all") and ref is not None:
        ps = pred_set(I, st, a[1], True)
        if ps is None:
            raise Bail("impure char predicate")
        segs = st.resolve(it[2][1])
        out = []
        for u, b in split_by_dfa(st, segs, R.star(R.cset(ps[0] if m == "all" else ps[1]))):
            u = u.copy()
            I.store(u, ref[1], ref[2], ("opq", ("rest of", it[2]), -1))
            out.append((u, b if m == "all" else not b))
        return out
    if isinstance(it, tuple) and it[:2] == ("obj", "biter") and m in ("any", "all", "position"):
        return bytes_search(I, st, a, m, True)
    if not (isinstance(it, tuple) and it[:2] == ("obj", "arriter")):
        raise Bail("slice iterator " + m)
    _, _, base, i, n = it
    if m == "count":
        return [(st, n - i)]
    out = []
    cur = [(st, a[1] if m == "fold" else None)]
    fn = a[2] if m == "fold" else a[1]
    for k in range(i, n):
        nxt = []
        for s, acc in cur:
            e = ("ref", base[1], base[2] + (("f", k),))
            s = s.copy()
            if m == "find":
                arg = [("ref", s.alloc(e, "K"), ())]
            else:
                arg = [acc, e] if m == "fold" else [e]
            for r in I.call_value(s, fn, arg):
                if r.kind != "ret":
                    out.append(r)
                elif m in ("for_each", "fold"):
                    nxt.append((r.st, r.val))
                elif m == "find_map":
                    for u, v in I.force(r.st, r.val) if not is_adt(r.val) else [(r.st, r.val)]:
                        if v[2] == 0:
                            nxt.append((u, None))
                        else:
                            out.append((step(I, u, ref, base, k + 1, n), v))
                else:
                    for u, b in I.truth(r.st, r.val):
                        if b == (m == "all"):
                            nxt.append((u, None))
                        else:
                            v = {"any": True, "all": False, "find": some(e), "position": some(k - i)}[m]
                            out.append((step(I, u, ref, base, k + 1, n), v))
        cur = nxt
    for s, acc in cur:
        v = {"any": False, "all": True, "find": NONE, "position": NONE, "find_map": NONE, "for_each": UNIT, "fold": acc}[m]
        out.append((step(I, s, ref, base, n, n), v))
    return out


def step(I, st, ref, base, k, n):
    st = st.copy()
    if ref is not None:
        I.store(st, ref[1], ref[2], obj("arriter", base, k, n))
    return st


@rmodel(r"std::char::convert::<impl std::convert::From<char> for u(32|64|128)>::from")
def _(I, st, f, a):
    return [(st, a[0])]


@model("core::str::<impl str>::split")
def _(I, st, f, a):
    return mk_split(I, st, a, "split")


@model("core::str::<impl str>::rsplit")
def _(I, st, f, a):
    return mk_split(I, st, a, "rsplit")


@model("core::str::<impl str>::split_terminator")
def _(I, st, f, a):
    raise Bail("split_terminator")


@model("core::str::<impl str>::splitn", "core::str::<impl str>::rsplitn")
def _(I, st, f, a):
    p = pattern(I, st, a[2])
    if p[0] != "cs" or not isinstance(a[1], int):
        raise Bail("splitn")
    return [(st, obj("split", mkstr(S(I, st, a[0])), p[1], False, "rsplit" if "rsplitn" in f.df else "split", a[1]))]


def mk_split(I, st, a, dirn):
    p = pattern(I, st, a[1])
    if p[0] != "cs":
        raise Bail("split by a literal")
    return [(st, obj("split", mkstr(S(I, st, a[0])), p[1], False, dirn, -1))]


def split_next(I, st, a, back):
    ref, it = it_load(I, st, a)
    if not (isinstance(it, tuple) and it[:2] == ("obj", "split")):
        raise Bail("split iterator")
    _, _, s, cs, fin, dirn, cnt = it
    if fin or cnt == 0:
        return [(st, NONE)]
    if dirn == "rsplit":
        back = not back
    if cnt == 1:
        st = st.copy()
        I.store(st, ref[1], ref[2], obj("split", mkstr(()), cs, True, dirn, 0))
        return [(st, some(s))]
    nc = cnt - 1 if cnt > 0 else cnt
    out = []
    for t, r in (rfind_char if back else find_char)(st.copy(), s[1], cs):
        t = t.copy()
        if r is None:
            I.store(t, ref[1], ref[2], obj("split", mkstr(()), cs, True, dirn, nc))
            out.append((t, some(mkstr(t.resolve(s[1])))))
        else:
            piece, rest = (r[2], r[0]) if back else (r[0], r[2])
            I.store(t, ref[1], ref[2], obj("split", mkstr(rest), cs, False, dirn, nc))
            out.append((t, some(mkstr(piece))))
    return out


@rmodel(r"<std::str::R?SplitN?<.*> as std::iter::Iterator>::next")
def _(I, st, f, a):
    return split_next(I, st, a[0], False)


@rmodel(r"<std::str::R?Split<.*> as std::iter::DoubleEndedIterator>::next_back")
def _(I, st, f, a):
    return split_next(I, st, a[0], True)


@model("std::iter::Iterator::last")
def _(I, st, f, a):
    it = I.deref_all(st, a[0])
    if isinstance(it, tuple) and it[:2] == ("obj", "split") and it[6] == -1:
        st = st.copy()
        ad = st.alloc(it, "K")
        return split_next(I, st, ("ref", ad, ()), True)
    if isinstance(it, tuple) and it[:2] == ("obj", "chars"):
        st = st.copy()
        ad = st.alloc(it, "K")
        return chars_next(I, st, ("ref", ad, ()), True)
    return NotImplemented


@rmodel(r"core::str::<impl str>::(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|repeat|replace|replacen|escape_.*)",
        r"(alloc|std)::str::<impl str>::(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|repeat|replace|replacen)")
def _(I, st, f, a):
    t = text(S(I, st, a[0]), st)
    m = f.df.split("::")[-1]
    if m in ("to_ascii_lowercase", "to_ascii_uppercase"):
        cs = R.CharSet.of([(0x41, 0x5A)] if "lower" in m else [(0x61, 0x7A)])
        out = []
        for u, r in find_char(st.copy(), S(I, st, a[0]), cs):
            if r is None:
                out.append((u, mkstr(S(I, u, a[0]))))
            elif t is not None:
                out.append((u, mkstr((t.lower() if "lower" in m else t.upper(),))))
            else:
                out.append((u, opq_str(I, u, m, mkstr(S(I, u, a[0])))))
        return out
    st = st.copy()
    if m in ("replace", "replacen"):
        p = pattern(I, st, a[1])
        l = pat_lang(p)
        if l is not None:
            out = []
            for u, b in split_by_dfa(st, S(I, st, a[0]), R.contains_lang(l)):
                if not b:
                    out.append((u, mkstr(S(I, u, a[0]))))
                else:
                    out.append((u, opq_str(I, u, m, mkstr(S(I, u, a[0])), *a[1:])))
            return out
    return [(st, opq_str(I, st, m, mkstr(S(I, st, a[0])), *a[1:]))]


@rmodel(r"core::str::<impl str>::eq_ignore_ascii_case")
def _(I, st, f, a):
    x, y = S(I, st, a[0]), S(I, st, a[1])
    for p, q in ((x, y), (y, x)):
        t = text(q, st)
        if t is not None:
            l = R.EPS
            for c in t:
                l = R.concat(l, R.cset(R.CharSet.chars(c.lower() + c.upper() if c.isascii() else c)))
            return split_by_dfa(st, p, l)
    return I.decide(st, ("eqic", mkstr(x), mkstr(y)))


@rmodel(r"core::str::<impl str>::is_ascii")
def _(I, st, f, a):
    return split_by_dfa(st, S(I, st, a[0]), R.star(R.cset(R.W1)))


# ------------------------------------------------------------------------------------ char
CC = {
    "is_ascii_digit": [(0x30, 0x39)],
    "is_ascii_alphabetic": [(0x41, 0x5A), (0x61, 0x7A)],
    "is_ascii_alphanumeric": [(0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A)],
    "is_ascii_lowercase": [(0x61, 0x7A)],
    "is_ascii_uppercase": [(0x41, 0x5A)],
    "is_ascii_hexdigit": [(0x30, 0x39), (0x41, 0x46), (0x61, 0x66)],
    "is_ascii_punctuation": [(0x21, 0x2F), (0x3A, 0x40), (0x5B, 0x60), (0x7B, 0x7E)],
    "is_ascii_graphic": [(0x21, 0x7E)],
    "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)],
    "is_ascii_control": [(0, 0x1F), (0x7F, 0x7F)],
    "is_ascii": [(0, 0x7F)],
    "is_control": [(0, 0x1F), (0x7F, 0x9F)],
}


@rmodel(r"(core|std)::(char::methods|num)::<impl (char|u8)>::is_\w+")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    x = I.deref_all(st, a[0])
    if isinstance(x, int):
        x = ("char", chr(x))
    if m == "is_whitespace":
        cs = WS
    elif m == "is_digit":
        if a[1] != 10:
            raise Bail("is_digit radix")
        cs = R.CharSet.of(CC["is_ascii_digit"])
    elif m in CC:
        cs = R.CharSet.of(CC[m])
    elif m in ("is_alphabetic", "is_alphanumeric", "is_numeric", "is_lowercase", "is_uppercase"):
        cs = unicode_class(m)
    else:
        raise Bail(m)
    if isinstance(x, tuple) and x[:1] == ("sint",) and x[1][0] == "hibyte" and m.startswith("is_ascii"):
        return [(st, False)]
    if not (isinstance(x, tuple) and x[0] == "char"):
        raise Bail("char class of %r" % (x,))
    return I.char_in(st, x[1], cs)


_UC = {}


def unicode_class(m):
    """Approximation of the Unicode classes by Python's database (used for refactorings only)."""
    if m not in _UC:
        fn = {"is_alphabetic": str.isalpha, "is_numeric": str.isnumeric, "is_lowercase": str.islower,
              "is_uppercase": str.isupper, "is_alphanumeric": lambda c: c.isalpha() or c.isnumeric()}[m]
        out, lo = [], None
        for cp in range(0x110000):
            ok_ = not 0xD800 <= cp <= 0xDFFF and fn(chr(cp))
            if ok_ and lo is None:
                lo = cp
            elif not ok_ and lo is not None:
                out.append((lo, cp - 1))
                lo = None
        _UC[m] = R.CharSet.of(out)
    return _UC[m]


@rmodel(r"(core|std)::char::methods::<impl char>::len_utf8")
def _(I, st, f, a):
    return [(st, I.str_len(st, mkstr((I.deref_all(st, a[0])[1],))))]


@rmodel(r"std::ops::Range(Inclusive)?::<Idx>::contains", r"<std::ops::Range.* as std::ops::RangeBounds<.*>>::contains",
        r"std::ops::Range(From|To|ToInclusive)::<Idx>::contains")
def _(I, st, f, a):
    r = I.deref_all(st, a[0])
    x = I.deref_all(st, a[1])
    n = r[1].split("::")[-1]
    lo = hi = None
    if n in ("Range", "RangeInclusive"):
        lo, hi = r[3][0], r[3][1]
    elif n == "RangeFrom":
        lo = r[3][0]
    else:
        hi = r[3][0]
    cur = [(st, True)]
    if lo is not None:
        cur = [(u, b) for s, v in I.binop(st, "Ge", x, lo) for u, b in I.truth(s, v)]
    out = []
    for s, b in cur:
        if not b or hi is None:
            out.append((s, b))
            continue
        for u, v in I.binop(s, "Le" if "Inclusive" in n else "Lt", x, hi):
            out += I.truth(u, v)
    return out


# ------------------------------------------------------------------------------------ lazy statics, hash maps
def closed(v):
    """No reference into a state and no symbolic part."""
    if not isinstance(v, tuple) or isinstance(v, R.CharSet):
        return True
    if isinstance(v, V) or v[:1] in (("ref",), ("box",), ("opq",), ("sint",), ("sbool",)):
        return False
    return all(closed(x) for x in v)


@rmodel(r"lazy_static::(lazy|inline_lazy|core_lazy)::Lazy::<T>::get", r"lazy_static::(lazy|inline_lazy|core_lazy)::Lazy<T>::get")
def _(I, st, f, a):
    """The value of the static: what its initialiser gives, the same on every use."""
    return lazy(I, st, a[1], "lazy:" + repr(a[1]))


@rmodel(r"<std::sync::LazyLock<T, F> as std::ops::Deref>::deref", r"std::sync::LazyLock::<T, F>::force")
def _(I, st, f, a):
    return NotImplemented


def lazy(I, st, init, key):
    ad = ("S", key)
    if ad in st.mem:
        return [(st, ("ref", ad, ()))]
    if ad in I.lazies:
        st = st.copy()
        st.mem[ad] = I.lazies[ad]
        return [(st, ("ref", ad, ()))]
    out = []
    rs = I.call_value(st, init, [])
    for r in rs:
        if r.kind != "ret":
            out.append(r)
            continue
        t = r.st.copy()
        v = t.res(r.val)
        if len(rs) == 1 and closed(v) and not t.notes:
            I.lazies[ad] = v
        t.mem[ad] = v
        out.append((t, ("ref", ad, ())))
    return out


def plain_key(st, I, v):
    v = I.deref_all(st, v)
    t = text(st.resolve(v[1]), st) if is_str(v) else None
    if t is None:
        raise Bail("hash map with a symbolic key")
    return t


@rmodel(r"<std::collections::HashMap<K, V, S> as std::default::Default>::default", r"std::collections::HashMap::<K, V>::new",
        r"std::collections::HashMap::<K, V>::with_capacity", r"std::collections::HashMap<K, V>::(new|with_capacity)")
def _(I, st, f, a):
    return [(st, obj("hmap", ()))]


@rmodel(r"std::collections::HashMap(::)?<K, V, S(, A)?>::(insert|get|contains_key|len|is_empty|get_key_value)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    ref, it = it_load(I, st, a[0])
    if not (isinstance(it, tuple) and it[:2] == ("obj", "hmap")):
        raise Bail("hash map")
    st = st.copy()
    if m in ("len", "is_empty"):
        return [(st, len(it[2]) if m == "len" else not it[2])]
    k = plain_key(st, I, a[1])
    old = next((v for w, v in it[2] if w == k), None)
    if m == "contains_key":
        return [(st, old is not None)]
    if m == "get":
        return [(st, NONE if old is None else some(("ref", st.alloc(old, "K"), ())))]
    if m == "insert":
        rest = tuple((w, v) for w, v in it[2] if w != k)
        I.store(st, ref[1], ref[2], obj("hmap", rest + ((k, a[2]),)))
        return [(st, NONE if old is None else some(old))]
    raise Bail("hash map " + m)


# ------------------------------------------------------------------------------------ fmt
@model("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::new", "core::fmt::Arguments::new")
def _(I, st, f, a):
    tmpl = I.deref_all(st, a[0])
    args = I.deref_all(st, a[1])
    return [(st, obj("args", bytes(tmpl[1]), args[1]))]


@rmodel(r"(std|core)::fmt::Arguments(::<.*>)?::new")
def _(I, st, f, a):
    return EXACT["std::fmt::Arguments::new"](I, st, f, a)


@rmodel(r"(std|core)::fmt::Arguments(::<.*>)?::from_str(_nonconst)?")
def _(I, st, f, a):
    t = text(S(I, st, a[0]), st)
    return [(st, obj("args", None, mkstr(S(I, st, a[0]))))]


@rmodel(r"(std|core)::fmt::Arguments(::<.*>)?::(as_str|as_statically_known_str)")
def _(I, st, f, a):
    x = I.deref_all(st, a[0])
    if x[2] is None:
        return [(st, some(x[3]))]
    return [(st, NONE)]


def pieces(tmpl):
    i, argn, out = 0, 0, []
    while i < len(tmpl):
        b = tmpl[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(("lit", tmpl[i:i + b].decode("utf-8")))
            i += b
        elif b == 0x80:
            n = tmpl[i] | tmpl[i + 1] << 8
            i += 2
            out.append(("lit", tmpl[i:i + n].decode("utf-8")))
            i += n
        else:
            flags, w, p = 0, None, None
            if b & 1:
                flags = int.from_bytes(tmpl[i:i + 4], "little")
                i += 4
            if b & 2:
                w = int.from_bytes(tmpl[i:i + 2], "little")
                i += 2
            if b & 4:
                p = int.from_bytes(tmpl[i:i + 2], "little")
                i += 2
            if b & 8:
                argn = int.from_bytes(tmpl[i:i + 2], "little")
                i += 2
            out.append(("arg", argn, flags if b & 1 else None, w, p, b & 0x30))
            argn += 1
    return out


DEFOPTS = ("opts", False, None, None, None)      # alternate, width, precision, other flags


def fmt_opts(flags, w, p):
    alt, other = False, None
    if flags is not None:
        alt = bool(flags & 0x00800000)
        other = (flags & ~0x00800000 & ~0xE000_0000 & ~0x1F_FFFF) or None
        fill = flags & 0x1FFFFF
        align = (flags >> 29) & 3
        if w is not None or fill != 0x20:
            other = ("fill", fill, align, other)
    return ("opts", alt, w, p, other)


def run_args(I, st, args, buf):
    """Append the formatted arguments to the buffer address buf: [(st, 'ok'|'err') | Res panic]"""
    if args[2] is None:
        st = st.copy()
        buf_append(I, st, buf, st.resolve(args[3][1]))
        return [(st, True)]
    cur = [(st.copy(), True)]
    for pc in pieces(args[2]):
        nx = []
        for t, okk in cur:
            if isinstance(t, Res) or not okk:
                nx.append((t, okk))
                continue
            t = t.copy()
            if pc[0] == "lit":
                buf_append(I, t, buf, (pc[1],))
                nx.append((t, True))
                continue
            _, n, flags, w, p, ind = pc
            arg = args[3][n]
            val, fn = arg_parts(arg)
            opts = fmt_opts(flags, w, p)
            fa = ("F", "fmt", len(I.stack), buf)
            t.mem[fa] = obj("fmt", buf, opts)
            for r in I.call_value(t, fn, [val, ("ref", fa, ())]):
                r.st.mem.pop(fa, None)
                if r.kind == "panic":
                    nx.append((r, None))
                    continue
                v = r.val
                if is_adt(v) and v[1] == RESULT:
                    nx.append((r.st, v[2] == 0))
                else:
                    r.st.note("fmt result")
                    nx.append((r.st, True))
        cur = nx
    return cur


def arg_parts(arg):
    # Argument { ty: ArgumentType::Placeholder { value, formatter, .. } }
    x = arg
    while is_adt(x) and len(x[3]) == 1:
        x = x[3][0]
    if is_adt(x) and len(x[3]) >= 2:
        return x[3][0], x[3][1]
    raise Bail("fmt argument")


def buf_append(I, st, buf, segs):
    b = st.mem[buf]
    st.mem[buf] = mkstr(st.resolve(b[1] + tuple(segs)))


@rmodel(r"(std|core|alloc)::fmt::format(::format_inner)?")
def _(I, st, f, a):
    st = st.copy()
    st.nalloc += 1
    buf = ("F", len(I.stack), st.nalloc)
    st.mem[buf] = mkstr(())
    out = []
    for t, o in run_args(I, st, a[0], buf):
        if isinstance(t, Res):
            out.append(t)
            continue
        v = t.mem.pop(buf)
        t.nalloc -= 1
        if not o:
            out.append(panic(t, "a formatting trait implementation returned an error"))
        else:
            out.append((t, v))
    return out


def fmt_of(I, st, v):
    x = I.deref_all(st, v)
    if isinstance(x, tuple) and x[:2] == ("obj", "fmt"):
        return x
    raise Bail("formatter expected, got %r" % (str(x)[:60],))


@rmodel(r"(std|core)::fmt::Formatter(::<.*>)?::write_fmt", r"<std::fmt::Formatter as std::fmt::Write>::write_fmt")
def _(I, st, f, a):
    fm = fmt_of(I, st, a[0])
    out = []
    for t, o in run_args(I, st, a[1], fm[2]):
        if isinstance(t, Res):
            out.append(t)
        else:
            out.append((t, ok(UNIT) if o else err(adt("std::fmt::Error", 0))))
    return out


@rmodel(r"std::fmt::Write::write_fmt", r"<std::string::String as std::fmt::Write>::write_fmt")
def _(I, st, f, a):
    ref, x = it_load(I, st, a[0])
    if isinstance(x, tuple) and x[:2] == ("obj", "fmt"):
        buf = x[2]
    elif is_str(x) and ref is not None and ref[2] == ():
        buf = ref[1]
    else:
        raise Bail("write_fmt target")
    out = []
    for t, o in run_args(I, st, a[1], buf):
        if isinstance(t, Res):
            out.append(t)
        else:
            out.append((t, ok(UNIT) if o else err(adt("std::fmt::Error", 0))))
    return out


@rmodel(r"(std|core)::fmt::Formatter(::<.*>)?::(write_str|write_char)",
        r"<std::fmt::Formatter as std::fmt::Write>::(write_str|write_char)")
def _(I, st, f, a):
    fm = fmt_of(I, st, a[0])
    st = st.copy()
    x = I.deref_all(st, a[1])
    segs = (x[1],) if isinstance(x, tuple) and x[0] == "char" else S(I, st, a[1])
    buf_append(I, st, fm[2], segs)
    return [(st, ok(UNIT))]


@rmodel(r"(std|core)::fmt::Formatter(::<.*>)?::pad")
def _(I, st, f, a):
    return display_str(I, st, a[1], a[0])


@rmodel(r"(std|core)::fmt::Formatter(::<.*>)?::(alternate|width|precision|fill|sign_plus|sign_minus)")
def _(I, st, f, a):
    fm = fmt_of(I, st, a[0])
    m = f.df.split("::")[-1]
    if m == "alternate":
        alt = fm[3][1]
        if alt == "sym":
            return [(s, b) for s, b in I.decide(st, ("alternate",))]
        return [(st, alt)]
    if m == "width":
        return [(st, NONE if fm[3][2] is None else some(fm[3][2]))]
    if m == "precision":
        return [(st, NONE if fm[3][3] is None else some(fm[3][3]))]
    raise Bail("Formatter::" + m)


@rmodel(r"(std|core)::fmt::Formatter(::<.*>)?::new", r"std::fmt::Formatter::<.*>::new")
def _(I, st, f, a):
    ref, x = it_load(I, st, a[0])
    return [(st, obj("fmt", ref[1], DEFOPTS))]


@rmodel(r"std::fmt::FormattingOptions::new", r"<std::fmt::FormattingOptions as .*Default>::default")
def _(I, st, f, a):
    return [(st, DEFOPTS)]


def display_str(I, st, v, fm, number=None):
    m = fmt_of(I, st, fm)
    st = st.copy()
    segs = S(I, st, v)
    if m[3][2] is not None or m[3][3] is not None:
        flags = m[3][4][-1] if isinstance(m[3][4], tuple) else None
        zero = number is not None and isinstance(flags, int) and flags >> 24 & 1 and not flags >> 21 & 7
        if zero and m[3][3] is None and isinstance(number, int) and isinstance(m[3][2], int):
            segs = ("%0*d" % (m[3][2], number),)
        else:
            segs = opq_str(I, st, "pad%r" % (m[3],), mkstr(segs))[1]
            n = segs[0].n
            if zero and n in st.lang:       # no other character than digits and the sign
                d = R.cset(R.CharSet.of([(0x30, 0x39)]))
                l = R.concat(d, R.star(d))
                st.lang[n] = R.inter(st.lang[n], R.union(l, R.concat(R.lit("-"), l)))
    buf_append(I, st, m[2], segs)
    return [(st, ok(UNIT))]


@rmodel(r"<(str|std::string::String|char|url::Url|url::ParseError|bool|.*Cow<.*>) as std::fmt::Display>::fmt",
        r"<(base64::DecodeError|std::string::FromUtf8Error|language_tags::ParseError|std::io::Error|std::cell::BorrowError|"
        r"url::parser::ParseError|std::boxed::Box<dyn std::error::Error>) as std::fmt::Display>::fmt",
        r"<std::boxed::Box<T, A> as std::fmt::Display>::fmt",
        r"(std|core)::fmt::(num::imp|num|float)?.*<impl std::fmt::Display for \w+>::fmt",
        r"core::fmt::num::imp::<impl std::fmt::Display for \w+>::fmt",
        r"<(u|i)(8|16|32|64|128|size) as std::fmt::Display>::fmt",
        r"<(uuid|idna|bimap)::.* as std::fmt::Display>::fmt")
def _(I, st, f, a):
    x = I.deref_all(st, a[0])
    if isinstance(x, tuple) and x[:1] == ("obj",) and x[1] in ("uuid", "uuidfmt"):
        st, v = uuid_text(st, x if x[1] == "uuidfmt" else obj("uuidfmt", "hyphenated", x), False)
        return display_str(I, st, v, a[1])
    if is_str(x):
        return display_str(I, st, x, a[1])
    if isinstance(x, tuple) and x and x[0] == "char":
        return display_str(I, st, mkstr((x[1],)), a[1])
    if isinstance(x, tuple) and x and x[0] == "url":
        return display_str(I, st, mkstr(url_ser(I, st, x)), a[1])
    if isinstance(x, bool):
        return display_str(I, st, mkstr((str(x).lower(),)), a[1])
    if isinstance(x, int):
        return display_str(I, st, mkstr((str(x),)), a[1], x)
    st = st.copy()
    if re.search(r"for (u|i)(8|16|32|64|128|size)>|^<(u|i)(8|16|32|64|128|size) as", f.df) and isinstance(x, tuple) and x[0] == "sint":
        return display_str(I, st, mkstr(int_text(I, st, x, re.search(r"(for |<)i\d|(for |<)isize", f.df) is not None)), a[1], x)
    return display_str(I, st, opq_str(I, st, "display", x), a[1])


@rmodel(r"std::fmt::Display::fmt")
def _(I, st, f, a):
    """The text of an object behind a trait object."""
    if f.kind != "virtual" or I.devirtualise(st, f, a) is not None:
        return NotImplemented
    st = st.copy()
    return display_str(I, st, opq_str(I, st, "display", I.deref_all(st, a[0])), a[1])


def int_text(I, st, x, signed=False):
    """The decimal digits of an integer."""
    t = opq_str(I, st, "int-text", x)
    d = R.cset(R.CharSet.of([(0x30, 0x39)]))
    l = R.union(R.lit("0"), R.concat(R.cset(R.CharSet.of([(0x31, 0x39)])), R.star(d)))
    if signed:
        l = R.union(l, R.concat(R.lit("-"), l))
    n = t[1][0].n
    if n in st.lang:
        st.lang[n] = R.inter(st.lang[n], l)
    return t[1]


@rmodel(r"<.* as std::fmt::(Debug|LowerHex|UpperHex|Octal|Binary)>::fmt", r".*<impl std::fmt::(Debug|LowerHex|UpperHex) for .*>::fmt")
def _(I, st, f, a):
    st = st.copy()
    x = st.res(I.snapshot(st, a[0]))
    tr = re.search(r"fmt::(Debug|LowerHex|UpperHex|Octal|Binary)", f.df).group(1)
    m = fmt_of(I, st, a[1])
    return display_str(I, st, opq_str(I, st, tr.lower() + repr(m[3]), x), a[1])


# ------------------------------------------------------------------------------------ misc std
@rmodel(r"std::hint::must_use", r"core::hint::must_use", r"std::mem::(take_)?identity", r"std::convert::identity",
        r"std::hint::black_box")
def _(I, st, f, a):
    return [(st, a[0])]


@rmodel(r"std::mem::(take|replace|swap)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    st = st.copy()
    old = I.load(st, a[0][1], a[0][2])
    if m == "replace":
        I.store(st, a[0][1], a[0][2], a[1])
        return [(st, old)]
    if m == "swap":
        o2 = I.load(st, a[1][1], a[1][2])
        I.store(st, a[0][1], a[0][2], o2)
        I.store(st, a[1][1], a[1][2], old)
        return [(st, UNIT)]
    if is_str(old):
        I.store(st, a[0][1], a[0][2], mkstr(()))
        return [(st, old)]
    if is_adt(old) and old[1] == OPTION:
        I.store(st, a[0][1], a[0][2], NONE)
        return [(st, old)]
    if isinstance(old, tuple) and old and old[0] == "bimap":
        I.store(st, a[0][1], a[0][2], ("bimap", "empty", ()))
        return [(st, old)]
    return NotImplemented


@rmodel(r"std::mem::drop", r"std::mem::forget")
def _(I, st, f, a):
    return [(st, UNIT)]


@rmodel(r"std::option::unwrap_failed")
def _(I, st, f, a):
    return [panic(st, "called `Option::unwrap()` on a `None` value")]


@rmodel(r"std::option::expect_failed")
def _(I, st, f, a):
    return [panic(st, "Option::expect failed")]


@rmodel(r"std::result::unwrap_failed.*")
def _(I, st, f, a):
    return [panic(st, "called `Result::unwrap()`/`expect()` on an unexpected variant")]


@rmodel(r"(core|std)::(panicking::.*|rt::panic_fmt|rt::begin_panic.*|str::slice_error_fail.*|slice::index::slice_.*fail.*|rt::panic_display)",
        r"std::panicking::.*")
def _(I, st, f, a):
    return [panic(st, "panic (%s)" % f.df.split("::")[-1])]


@rmodel(r".*precondition_check")
def _(I, st, f, a):
    return [(st, UNIT)]


@rmodel(r"<(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|bool|char|\(\)|&T|&?) as std::clone::Clone>::clone",
        r"std::clone::impls::<impl std::clone::Clone for (u\w+|i\w+|bool|char|&T|!)>::clone")
def _(I, st, f, a):
    return [(st, I.deref(st, a[0]))]


@rmodel(r"(core|std)::cmp::impls::<impl std::cmp::(Ord|PartialOrd) for (u\w+|i\w+|bool|char)>::(cmp|partial_cmp|lt|le|gt|ge)")
def _(I, st, f, a):
    x, y = I.deref_all(st, a[0]), I.deref_all(st, a[1])
    m = f.df.split("::")[-1]
    if isinstance(x, int) and isinstance(y, int):
        v = 0 if x < y else 1 if x == y else 2
        if m == "cmp":
            return [(st, adt("std::cmp::Ordering", v))]
        if m == "partial_cmp":
            return [(st, some(adt("std::cmp::Ordering", v)))]
        return [(st, {"lt": v == 0, "le": v <= 1, "gt": v == 2, "ge": v >= 1}[m])]
    out = []
    for t, e in I.binop(st, "Eq", x, y):
        for u, same in I.truth(t, e):
            if same:
                out.append((u, 1))
                continue
            for w, l in I.binop(u, "Lt", x, y):
                out += [(z, 0 if b else 2) for z, b in I.truth(w, l)]
    return ordered(out, m)


def whole_text(I, st, v):
    """The text of an untouched iterator over characters or bytes, or of a slice of bytes."""
    v = I.deref_all(st, v)
    if isinstance(v, tuple) and (v[:2] in (("obj", "chars"), ("obj", "bytes[]")) or v[:2] == ("obj", "bytes") and not v[3]):
        return v[1], v[2]
    return None, None


@rmodel(r"<std::str::(Chars|Bytes)(<.*>)? as std::iter::Iterator>::(cmp|partial_cmp|eq|ne|lt|le|gt|ge)",
        r"std::iter::Iterator::(cmp|partial_cmp|eq|ne|lt|le|gt|ge)",
        r"core::slice::cmp::<impl std::cmp::(Partial)?(Ord|Eq)(<.*>)? for \[.*\]>::(cmp|partial_cmp|eq|ne|lt|le|gt|ge)")
def _(I, st, f, a):
    (k, x), (l, y) = whole_text(I, st, a[0]), whole_text(I, st, a[1])
    m = f.df.split("::")[-1]
    if x is None or y is None or k != l:
        return NotImplemented
    if m in ("eq", "ne"):
        return [(t, b != (m == "ne")) for t, b in I.str_eq(st, x[1], y[1])]
    return ordering(I, st, x, y, m, "scmp")     # the order of code points is that of the bytes


# ------------------------------------------------------------------------------------ boxes
@rmodel(r"std::boxed::Box::<T>::new", r"alloc::boxed::Box::<T>::new", r"std::rc::Rc::<T>::new", r"std::sync::Arc::<T>::new",
        r"std::boxed::box_new")
def _(I, st, f, a):
    st = st.copy()
    ad = st.alloc(a[0], "B")
    return [(st, ("box", ad))]


@rmodel(r"<std::boxed::Box<.*> as std::(ops::Deref|ops::DerefMut|convert::AsRef<.*>|borrow::Borrow<.*>)>::\w+",
        r"<std::(rc::Rc|sync::Arc)<.*> as std::(ops::Deref|convert::AsRef<.*>|borrow::Borrow<.*>)>::\w+")
def _(I, st, f, a):
    x = I.deref(st, a[0])
    if isinstance(x, tuple) and x and x[0] == "box":
        return [(st, ("ref", x[1], ()))]
    if is_str(x):
        return [(st, x)]
    if is_opq(x):
        return NotImplemented if f.body else [(st, ("opq", ("deref", x[1]), -1))]
    raise Bail("deref of %r" % (str(x)[:60],))


@rmodel(r"<std::(rc::Rc|sync::Arc)<.*> as std::clone::Clone>::clone")
def _(I, st, f, a):
    return [(st, I.deref(st, a[0]))]


@rmodel(r"<std::boxed::Box<.*> as std::clone::Clone>::clone")
def _(I, st, f, a):
    x = I.deref(st, a[0])
    if isinstance(x, tuple) and x and x[0] == "box":
        st = st.copy()
        ad = st.alloc(I.load(st, x[1], ()), "B")
        return [(st, ("box", ad))]
    return [(st, x)]


@rmodel(r"<std::boxed::Box<.*> as std::ops::Drop>::drop")
def _(I, st, f, a):
    x = I.deref(st, a[0])
    st = st.copy()
    if isinstance(x, tuple) and x and x[0] == "box":
        st.mem[x[1]] = UNINIT       # only the cell is left: what was in it has been moved out
    return [(st, UNIT)]


@rmodel(r"<std::boxed::Box<.*> as std::convert::From<.*>>::from")
def _(I, st, f, a):
    if is_str(a[0]):
        return [(st, a[0])]
    st = st.copy()
    ad = st.alloc(a[0], "B")
    return [(st, ("box", ad))]


# ------------------------------------------------------------------------------------ hashing
@rmodel(r"<(str|std::string::String) as std::hash::Hash>::hash", r"core::hash::impls::<impl std::hash::Hash for (str|\w+)>::hash",
        r"<(u|i)\w+ as std::hash::Hash>::hash", r"<url::Url as std::hash::Hash>::hash")
def _(I, st, f, a):
    x = I.deref_all(st, a[0])
    return hash_feed(I, st, a[1], x)


@rmodel(r"std::hash::Hasher::(write_\w+|write)", r"<roots_\w+::Probe as std::hash::Hasher>::\w+")
def _(I, st, f, a):
    if f.df.endswith("finish"):
        raise Bail("finish")
    return hash_feed(I, st, a[0], I.deref_all(st, a[1]))


def hash_feed(I, st, h, x):
    st = st.copy()
    ref, v = it_load(I, st, h)
    seq = v[2] if isinstance(v, tuple) and v[:2] == ("obj", "hash") else ()
    I.store(st, ref[1], ref[2], obj("hash", seq + (st.res(x),)))
    return [(st, UNIT)]


# ------------------------------------------------------------------------------------ url
URLC = R.CharSet.of([(0x20, 0x7E)]).minus(R.CharSet.chars("?#"))
PATHL = R.star(R.cset(URLC))
QUERYL = R.star(R.cset(R.CharSet.of([(0x20, 0x7E)]).minus(R.CharSet.chars("#"))))
FRAGL = R.star(R.cset(R.CharSet.of([(0x20, 0x7E)])))
SERL = R.plus(R.cset(R.CharSet.of([(0x20, 0x7E)])))


def sym_url(I, st, name):
    """('url', base, overrides): overrides is a tuple of (component, value)."""
    return ("url", name, ())


ENTRY_URL = re.compile(r".*\.e\d+\.v\Z|map-iri#")


def url_root(st, u):
    """The URL with names that turned out to stand for another URL replaced."""
    while ENTRY_URL.match(u[1]):
        for k in st.facts:
            if k[0] == "uis" and k[1] == u[1]:
                d = dict(k[2][2])
                d.update(dict(u[2]))
                u = ("url", k[2][1], tuple(sorted(d.items(), key=lambda kv: kv[0])))
                break
        else:
            break
    return u


def url_unify(I, st, n, y):
    """The states in which the named URL is y."""
    cur = [st.copy()]
    for comp in ("path", "query", "frag"):
        v = n + "|" + comp
        if ("has", comp, n) not in st.facts and v not in st.lang and v not in st.subst:
            continue
        nxt = []
        for s in cur:
            for t, x in url_get(I, s, ("url", n, ()), comp):
                for w, z in url_get(I, t, y, comp):
                    if is_str(x) and is_str(z):
                        nxt += [q for q, b in I.str_eq(w, x[1], z[1]) if b]
                    elif x == NONE or z == NONE:
                        nxt += [w] if x == z else []
                    else:
                        nxt += [q for q, b in I.str_eq(w, x[3][0][1], z[3][0][1]) if b]
        cur = nxt

    def go(v):
        if not isinstance(v, tuple) or isinstance(v, (V, R.CharSet)):
            return v
        if v[:2] == ("url", n):
            d = dict(y[2])
            d.update(dict(v[2]))
            return ("url", y[1], tuple(sorted(d.items(), key=lambda kv: kv[0])))
        return tuple(go(x) if isinstance(x, tuple) else x for x in v)
    for s in cur:
        s.facts = {go(k): v for k, v in s.facts.items()}
        s.facts[("uis", n, y)] = True
    return [s for s in cur if not any(k[0] == "ueq" and v is False and url_norm(I, s, k[1]) == url_norm(I, s, k[2])
                                      for k, v in s.facts.items())]


def url_get(I, st, u, comp):
    u = url_root(st, u)
    for k, v in u[2]:
        if k == comp:
            return url_stored(I, st, u, comp, v)
    base = u[1]
    if base.startswith("const:"):
        return [(st, const_url(base[6:])[comp])]
    if comp == "path":
        n = base + "|path"
        if n not in st.lang and n not in st.subst:
            st.newvar(n, PATHL)
        return [(st, mkstr((V(n),)))]
    out = []
    for s, b in I.decide(st, ("has", comp, base)):
        if not b:
            out.append((s, NONE))
            continue
        n = base + "|" + comp
        if n not in s.lang and n not in s.subst:
            s.newvar(n, QUERYL if comp == "query" else FRAGL)
        out.append((s, some(mkstr((V(n),)))))
    return out


CONST_URL = re.compile(r"(https?|ftp)://[a-z0-9.-]+(:[0-9]+)?(/[A-Za-z0-9._~/+-]*)?(\?[^#\"<>' ]*)?(#[A-Za-z0-9._~/+-]*)?\Z")


def const_url(s):
    m = CONST_URL.match(s)
    if not m:
        return None
    path = m.group(3) or "/"
    if any(p in (".", "..") for p in path.split("/")):
        return None
    q, fr = m.group(4), m.group(5)
    return {"path": mkstr((path,)), "query": NONE if q is None else some(mkstr((q[1:],))),
            "frag": NONE if fr is None else some(mkstr((fr[1:],)))}


UNRES = R.CharSet.of([(0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A)]).union(R.CharSet.chars("-_.~"))
PLAIN = {"frag": R.star(R.cset(UNRES)), "query": R.star(R.cset(UNRES)),
         "path": R.minus(R.star(R.cset(UNRES.union(R.CharSet.chars("/")))),
                         R.concat_all([R.union(R.EPS, R.ends_with(R.lit("/"))),
                                       R.union(R.lit("."), R.lit("..")), R.union(R.EPS, R.starts_with(R.lit("/")))]))}


def url_stored(I, st, u, comp, v):
    """What reads back after a component was replaced: the text itself where every piece comes from a
    URL or needs no encoding, an unknown (encoded) text otherwise."""
    if v == NONE:
        return [(st, v)]
    segs = st.resolve((v if comp == "path" else v[3][0])[1])
    out = []
    cur = [st]
    for s in segs:
        if isinstance(s, V) and "|" in s.n:
            continue                      # already a component of a URL
        nxt = []
        for t in cur:
            for w, b in split_by_dfa(t, (s,), PLAIN[comp]):
                if b:
                    nxt.append(w)
                    continue
                w = w.copy()
                x = opq_str(I, w, "encoded-" + comp, mkstr(segs))
                out.append((w, x if comp == "path" else some(x)))
        cur = nxt
    return out + [(t, st.res(v)) for t in cur]


def url_set(u, comp, v):
    return ("url", u[1], tuple(sorted([(k, x) for k, x in u[2] if k != comp] + [(comp, v)], key=lambda kv: kv[0])))


def url_norm(I, st, u):
    """Drop overrides that restate the original component."""
    u = url_root(st, u)
    out = []
    for k, v in u[2]:
        v = st.res(v)
        if u[1].startswith("const:"):
            if const_url(u[1][6:])[k] == v:
                continue
        elif k == "path":
            if v == st.res(mkstr((V(u[1] + "|path"),))):
                continue
        else:
            h = st.facts.get(("has", k, u[1]))
            if h is False and v == NONE:
                continue
            if h is True and v == some(st.res(mkstr((V(u[1] + "|" + k),)))):
                continue
        out.append((k, v))
    if out and u[1].startswith("const:"):
        # all parts known: the text they make, if that reads back as these parts
        m = CONST_URL.match(u[1][6:])
        c = dict(const_url(u[1][6:]))
        c.update(out)
        part = {k: "" if v == NONE else text((v if k == "path" else v[3][0])[1], st) for k, v in c.items()}
        if None not in part.values():
            w = u[1][6:][:m.start(3) if m.group(3) else m.end(2) if m.group(2) else m.end(0)] if m.group(3) or m.group(2) \
                else u[1][6:].split("?")[0].split("#")[0]
            w += part["path"] + ("" if c["query"] == NONE else "?" + part["query"]) + \
                ("" if c["frag"] == NONE else "#" + part["frag"])
            if CONST_URL.match(w) and const_url(w) == c:
                return ("url", "const:" + w, ())
    return ("url", u[1], tuple(out))


def url_ser(I, st, u):
    u = url_norm(I, st, u)
    if not u[2]:
        if u[1].startswith("const:"):
            return (u[1][6:],)
        n = u[1] + "|ser"
    else:
        n = I.term_id(st, "url-ser", u)
    if n not in st.lang and n not in st.subst:
        st.newvar(n, SERL)
    return (V(n),)


def get_url(I, st, v):
    x = I.deref_all(st, v)
    if is_adt(x) and len(x[3]) == 1:
        x = x[3][0]
    if isinstance(x, tuple) and x and x[0] == "url":
        return x
    raise Bail("Url expected, got %r" % (str(x)[:60],))


@rmodel(r"<url::Url as std::str::FromStr>::from_str", r"url::Url::parse", r"<url::Url as std::convert::TryFrom<&str>>::try_from")
def url_parse(I, st, f, a):
    s = S(I, st, a[0])
    t = text(s, st)
    if t is not None and CONST_URL.match(t) and const_url(t) is not None:
        if "/" not in t.split("//", 1)[1] and "?" not in t and "#" not in t:
            t += "/"
        return [(st, ok(("url", "const:" + t, ())))]
    w = st.words(s)
    if len(w) == 1 and isinstance(w[0], V):
        # parsing what was serialised gives the same URL back
        u = ser_url(I, st, w[0])
        if u is not None:
            return [(st, ok(u))]
    if len(w) > 1 and isinstance(w[0], str) and "#" in w[0]:
        # a known URL up to somewhere in its fragment, and text that needs no encoding
        head, tail = w[0].split("#", 1)
        if CONST_URL.match(head) and const_url(head) is not None and "/" in head.split("//", 1)[1]:
            frag = ((tail,) if tail else ()) + tuple(w[1:])
            if all(R.subset(st.seglang(x), PLAIN["frag"]) for x in frag):
                return [(st, ok(("url", "const:" + head, (("frag", some(mkstr(frag))),))))]
    key = I.same_term(st, "url-parse", mkstr(s))
    term = ("url-parse", key)
    out = []
    base = I.term_id(st, "url-parse", key)
    for u, b in I.decide(st, term):
        out.append((u, ok(("url", base, ())) if b else err(("opq", ("parse-error", key), -1))))
    return out


@rmodel(r"url::Url::(as_str|to_string|into_string)", r"<url::Url as std::convert::AsRef<str>>::as_ref",
        r"<url::Url as std::ops::Deref>::deref", r"<std::string::String as std::convert::From<url::Url>>::from",
        r"url::<impl std::convert::From<url::Url> for std::string::String>::from")
def _(I, st, f, a):
    st = st.copy()
    return [(st, mkstr(url_ser(I, st, get_url(I, st, a[0]))))]


@rmodel(r"url::Url::(path|query|fragment)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    return url_get(I, st.copy(), get_url(I, st, a[0]), {"fragment": "frag"}.get(m, m))


@rmodel(r"url::Url::set_(path|query|fragment)")
def _(I, st, f, a):
    m = f.df.split("_")[-1]
    comp = {"fragment": "frag"}.get(m, m)
    st = st.copy()
    ref, u = it_load(I, st, a[0])
    if comp == "path":
        v = mkstr(S(I, st, a[1]))
    else:
        v = a[1]
        if is_opq(v):
            raise Bail("opaque option")
        v = NONE if v[2] == 0 else some(mkstr(S(I, st, v[3][0])))
    I.store(st, ref[1], ref[2], url_set(u, comp, v))
    return [(st, UNIT)]


@rmodel(r"url::Url::path_segments")
def _(I, st, f, a):
    out = []
    for s, p in url_get(I, st.copy(), get_url(I, st, a[0]), "path"):
        r = EXACT["core::str::<impl str>::strip_prefix"](I, s, f, [p, ("char", "/")])
        for t, o in r:
            if o[2] == 0:
                out.append((t, NONE))
            else:
                out.append((t, some(obj("split", mkstr(t.resolve(o[3][0][1])), R.CharSet.chars("/"), False, "split", -1))))
    return out


@rmodel(r"url::Url::cannot_be_a_base")
def _(I, st, f, a):
    u = get_url(I, st, a[0])
    if u[1].startswith("const:"):
        return [(st, False)]
    out = []
    for s, b in I.decide(st, ("cbb", u[1])):
        # a URL that cannot be a base has no path starting with '/'
        for t, p in url_get(I, s, ("url", u[1], ()), "path"):
            for w, x in split_by_dfa(t, p[1], R.starts_with(R.lit("/"))):
                if b and x:
                    continue
                if not b and not x:
                    # may only be the empty path
                    for z, e in split_by_dfa(w, w.resolve(p[1]), R.EPS):
                        if e:
                            out.append((z, False))
                    continue
                out.append((w, b))
    return out


@rmodel(r"url::Url::join")
def _(I, st, f, a):
    st = st.copy()
    u = url_norm(I, st, get_url(I, st, a[0]))
    s = mkstr(S(I, st, a[1]))
    key = I.same_term(st, "url-join", (st.res(u), s))
    base = I.term_id(st, "url-join", key)
    out = []
    for t, b in I.decide(st, ("url-join",) + key):
        out.append((t, ok(("url", base, ())) if b else err(("opq", ("join-error",) + key, -1))))
    return out


@rmodel(r"url::Url::(scheme|host_str|domain|username|password|port|host|authority|has_authority|has_host|origin|port_or_known_default)")
def _(I, st, f, a):
    st = st.copy()
    u = get_url(I, st, a[0])
    return [(st, ("opq", ("urlpart", f.df.split("::")[-1], u[1]), -1))]


@rmodel(r"<url::Url as std::clone::Clone>::clone")
def _(I, st, f, a):
    return [(st, get_url(I, st, a[0]))]


@rmodel(r"<url::Url as std::cmp::PartialEq>::(eq|ne)")
def _(I, st, f, a):
    ne = f.df.endswith("ne")
    return [(s, b != ne) for s, b in url_eq(I, st, get_url(I, st, a[0]), get_url(I, st, a[1]))]


def ser_url(I, st, seg):
    """The URL a text is the serialisation of."""
    if isinstance(seg, V):
        if seg.n.endswith("|ser"):
            return ("url", seg.n[:-4], ())
        if seg.n.startswith("url-ser#"):
            return I.term_payload(st, seg.n)
    return None


def url_eq(I, st, x, y):
    x, y = url_norm(I, st, x), url_norm(I, st, y)
    x, y = st.res(x), st.res(y)
    if x == y:
        return [(st, True)]
    if x[1].startswith("const:") and y[1].startswith("const:") and not x[2] and not y[2]:
        return [(st, False)]
    if repr(y) < repr(x):
        x, y = y, x
    out = []
    for s, b in I.decide(st, ("ueq", x, y)):
        n, z = (x, y) if ENTRY_URL.match(x[1]) and not x[2] else (y, x)
        if not b or n[2] or not ENTRY_URL.match(n[1]) or n[1] in repr(z):
            out.append((s, b))
            continue
        s = s.copy()
        s.facts.pop(("ueq", x, y), None)
        out += [(t, True) for t in url_unify(I, s, n[1], z)]
    return out


@rmodel(r"<url::Url as std::cmp::(Ord|PartialOrd)>::(cmp|partial_cmp|lt|le|gt|ge)")
def _(I, st, f, a):
    # documented: URLs compare like their serialisations
    st = st.copy()
    x, y = url_ser(I, st, get_url(I, st, a[0])), url_ser(I, st, get_url(I, st, a[1]))
    return ordering(I, st, mkstr(x), mkstr(y), f.df.split("::")[-1], "scmp")


# ------------------------------------------------------------------------------------ bimap
# ('bimap', base, ops): ops in application order, ('ins', k, v) | ('rml', k) | ('rmr', v) | ('clr',)
@rmodel(r"bimap::btree::BiBTreeMap::<L, R>::new", r"<bimap::btree::BiBTreeMap<.*> as std::default::Default>::default")
def _(I, st, f, a):
    return [(st, ("bimap", "empty", ()))]


def get_map(I, st, v):
    ref, x = it_load(I, st, v)
    if isinstance(x, tuple) and x and x[0] == "bimap":
        return ref, x
    raise Bail("BiBTreeMap expected")


def key_eq(I, st, x, y):
    """Equality of two (Namespace/Iri) values by structure."""
    x, y = I.deref_all(st, x), I.deref_all(st, y)
    while is_adt(x) and is_adt(y) and len(x[3]) == 1 and len(y[3]) == 1:
        x, y = x[3][0], y[3][0]
    if is_str(x) and is_str(y):
        return I.str_eq(st, x[1], y[1])
    if isinstance(x, tuple) and x[0] == "url" and isinstance(y, tuple) and y[0] == "url":
        return url_eq(I, st, x, y)
    raise Bail("map key comparison")


def map_get(I, st, base, ops, k, left, mk):
    """-> [(st, value or None)] for the partner of key k."""
    if not ops:
        if base == "empty":
            return [(st, None)]
        es = map_known(st, base)
        if es is not None:
            out, cur = [], [st]
            for e in es:
                nxt = []
                for s in cur:
                    for t, b in key_eq(I, s, k, e[0 if left else 1]):
                        if b:
                            out.append((t, e[1 if left else 0]))
                        else:
                            nxt.append(t)
                cur = nxt
            return out + [(s, None) for s in cur]
        kk = st.res(I.snapshot(st, k))
        kv = kk
        while is_adt(kv) and len(kv[3]) == 1:
            kv = kv[3][0]
        if isinstance(kv, tuple) and kv[0] == "url":
            kv = url_norm(I, st, kv)
            if is_adt(kk):
                kk = adt(kk[1], kk[2], (kv,))
        # the two directions are inverse to each other
        back = None
        if not left and kv[0] == "url" and not kv[2] and kv[1].startswith("map-iri#"):
            back = I.term_payload(st, kv[1])
        elif left and is_str(kv) and len(kv[1]) == 1 and isinstance(kv[1][0], V) and kv[1][0].n.startswith("map-prefix#"):
            back = I.term_payload(st, kv[1][0].n)
        if back is not None and back[0] == base:
            return [(st, st.res(back[1]))]
        out = []
        for s, b in I.decide(st, ("in", base, "L" if left else "R", kk)):
            out.append((s, mk(s, base, kk) if b else None))
        return out
    op = ops[-1]
    rest = ops[:-1]
    if op[0] == "clr":
        return [(st, None)]
    if op[0] == "ins":
        mine, other = (op[1], op[2]) if left else (op[2], op[1])
        out = []
        for s, b in key_eq(I, st, k, mine):
            if b:
                out.append((s, other))
                continue
            for t, r in map_get(I, s, base, rest, k, left, mk):
                if r is None:
                    out.append((t, None))
                    continue
                for w, c in key_eq(I, t, r, other):
                    out.append((w, None if c else r))
        return out
    if (op[0] == "rml") == left:
        out = []
        for s, b in key_eq(I, st, k, op[1]):
            if b:
                out.append((s, None))
            else:
                out += map_get(I, s, base, rest, k, left, mk)
        return out
    out = []
    for t, r in map_get(I, st, base, rest, k, left, mk):
        if r is None:
            out.append((t, None))
            continue
        for w, c in key_eq(I, t, r, op[1]):
            out.append((w, None if c else r))
    return out


MAXENT = 2         # entries of an arbitrary map whose iteration does not merely show every one of them


def map_entry(base, n):
    return [(adt("rdftk_iri::Namespace", 0, (mkstr((V("%s.e%d.k" % (base, i)),)),)),
             adt("rdftk_iri::Iri", 0, (("url", "%s.e%d.v" % (base, i), ()),))) for i in range(n)]


def map_known(st, base):
    """The entries iteration has found an arbitrary map to have, or None."""
    for k in st.facts:
        if k[0] == "entries" and k[1] == base:
            return list(k[2])
    return None


def map_fix(I, st, base):
    """Case distinction on the number of entries of an arbitrary map: [(st, entries)]."""
    if base == "empty":
        return [(st, [])]
    es = map_known(st, base)
    if es is not None:
        return [(st, es)]
    size = ("sint", ("maplen", ("bimap", base, ())))
    hits, misses, dec = [], [], []
    st = st.copy()
    for k, v in st.facts.items():
        if k[0] == "cmp" and k[2] == size:
            dec.append((k, v))
        elif k[0] == "in" and k[1] == base:
            (hits if v else misses).append((k[2] == "L", k[3]))
        elif "('bimap', %r" % base in repr(k) and k[0] != "term":
            st.note("iteration over a map already asked for something else")
    # the entries found by looking something up
    cur = [(st, [])]
    for left, kk in hits:
        nxt = []
        for s, known in cur:
            s = s.copy()
            other = map_partner(I, left, None, None)(s, base, kk)
            e = (kk, other) if left else (other, kk)
            live = [s]
            for x in known:
                more = []
                for t in live:
                    for w, b in key_eq(I, t, e[0], x[0]):
                        for q, c in key_eq(I, w, e[1], x[1]):
                            if b and c:
                                nxt.append((q, known))
                            elif not b and not c:
                                more.append(q)
                live = more
            nxt += [(t, known + [e]) for t in live]
        cur = nxt
    out = []
    for s, known in cur:
        for n in range(max(0, MAXENT - len(known)) + 1):
            t = s.copy()
            new = map_entry(base, n)
            total = len(known) + n
            if any(k[1] != "Eq" or (total == k[3]) != v for k, v in dec):
                continue
            for i in range(n):
                t.newvar("%s.e%d.k" % (base, i), R.concat(R.ANY, R.lit(":")))
            ts = [t]

            def apart(x, y):
                return [w for u in ts for w, b in key_eq(I, u, x, y) if not b]
            for i in range(n):
                for side in (0, 1):
                    for e in known + new[:i]:
                        ts = apart(new[i][side], e[side])
            for left, kk in misses:
                for e in known + new:
                    ts = apart(e[0 if left else 1], kk)
            for es in ([known + new, new + known] if known and new else [known + new]):
                for u in ts:
                    u = u.copy()
                    u.facts[("entries", base, tuple(es))] = total
                    u.facts[("cmp", "Eq", size, 0)] = total == 0
                    out.append((u, es))
    return out


def map_entries(I, st, m):
    """Case distinction on the entries of a map: [(st, [(key, value)])], in any order it may have."""
    cur = map_fix(I, st, m[1])
    for op in m[2]:
        nxt = []
        for s, es in cur:
            if op[0] == "clr":
                nxt.append((s, []))
                continue
            sides = {"ins": ((0, op[1]), (1, op[-1])), "rml": ((0, op[1]),), "rmr": ((1, op[1]),)}[op[0]]
            alts = [(s, [])]
            for e in es:
                new = []
                for t, kept in alts:
                    hit, live = [], [t]
                    for side, k in sides:
                        more = []
                        for u in live:
                            for w, b in key_eq(I, u, e[side], k):
                                (hit if b else more).append(w)
                        live = more
                    new += [(u, kept) for u in hit] + [(u, kept + [e]) for u in live]
                alts = new
            if op[0] == "ins":
                x = (op[1], op[2])
                done = []
                for t, kept in alts:
                    w = [text(t.res(I.deref_all(t, e[0]))[3][0][1], t) for e in kept + [x]]
                    if None not in w:
                        done.append((t, [e for _, e in sorted(zip(w, kept + [x]), key=lambda p: p[0].encode())]))
                    else:
                        done += [(t, kept[:i] + [x] + kept[i:]) for i in range(len(kept) + 1)]
                alts = done
            nxt += alts
        cur = nxt
        if len(cur) > 200:
            raise Bail("too many cases of a map's entries")
    return cur


def map_partner(I, left, kty, vty):
    def mk(st, base, kk):
        n = I.term_id(st, "map-iri" if left else "map-prefix", (base, kk))
        if left:
            return adt("rdftk_iri::Iri", 0, (("url", n, ()),))
        st_n = n
        if st_n not in st.lang and st_n not in st.subst:
            st.newvar(st_n, R.concat(R.ANY, R.lit(":")))
        return adt("rdftk_iri::Namespace", 0, (mkstr((V(st_n),)),))
    return mk


def map_lookup(I, st, f, a, left, what):
    ref, m = get_map(I, st, a[0])
    st = st.copy()
    k = I.deref_all(st, a[1])
    out = []
    for s, r in map_get(I, st, m[1], m[2], k, left, map_partner(I, left, None, None)):
        if what == "contains":
            out.append((s, r is not None))
        elif r is None:
            out.append((s, NONE))
        else:
            s = s.copy()
            ad = ("M", repr(s.res(r)))
            s.mem[ad] = r
            out.append((s, some(("ref", ad, ()))))
    return out


@rmodel(r"bimap::btree::BiBTreeMap::<L, R>::(get_by_left|get_by_right|contains_left|contains_right)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    return map_lookup(I, st, f, a, m.endswith("left"), "contains" if m.startswith("contains") else "get")


@rmodel(r"bimap::btree::BiBTreeMap::<L, R>::(insert|remove_by_left|remove_by_right|clear|insert_no_overwrite|retain)")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    ref, x = get_map(I, st, a[0])
    st = st.copy()
    if m == "insert":
        op = ("ins", st.res(a[1]), st.res(a[2]))
    elif m == "remove_by_left":
        op = ("rml", st.res(I.deref_all(st, a[1])))
    elif m == "remove_by_right":
        op = ("rmr", st.res(I.deref_all(st, a[1])))
    elif m == "clear":
        op = ("clr",)
    elif m == "insert_no_overwrite":
        out = []
        for s, r in map_get(I, st, x[1], x[2], a[1], True, map_partner(I, True, None, None)):
            for t, r2 in map_get(I, s, x[1], x[2], a[2], False, map_partner(I, False, None, None)):
                t = t.copy()
                if r is None and r2 is None:
                    I.store(t, ref[1], ref[2], ("bimap", x[1], x[2] + (("ins", t.res(a[1]), t.res(a[2])),)))
                    out.append((t, ok(UNIT)))
                else:
                    out.append((t, err(("tup", (a[1], a[2])))))
        return out
    else:
        raise Bail("BiBTreeMap::" + m)
    I.store(st, ref[1], ref[2], ("bimap", x[1], x[2] + (op,)))
    if m == "clear":
        return [(st, UNIT)]
    return [(st, ("opq", ("mapret", m, x, op), -1))]


def map_len(st, x):
    if (x[1] == "empty" and not x[2]) or (x[2] and x[2][-1][0] == "clr"):
        return 0
    if not x[2] and map_known(st, x[1]) is not None:
        return len(map_known(st, x[1]))
    return ("sint", ("maplen", st.res(x)))


@rmodel(r"<bimap::btree::(Iter|LeftValues|RightValues|IntoIter)<.*> as std::iter::(Iterator|ExactSizeIterator)>::(count|len|size_hint)")
def _(I, st, f, a):
    out = []
    for s, ref, it in map_iter(I, st, a[0]):
        n = len(it[3])
        out.append((s, ("tup", (n, some(n))) if f.df.endswith("size_hint") else n))
    return out


@rmodel(r"bimap::btree::BiBTreeMap::<L, R>::(len|is_empty)")
def _(I, st, f, a):
    ref, x = get_map(I, st, a[0])
    if x[2] and map_known(st, x[1]) is not None:
        return [(s, len(es) if f.df.endswith("len") else not es) for s, es in map_entries(I, st, x)]
    n = map_len(st, x)
    if f.df.endswith("len"):
        return [(st, n)]
    if isinstance(n, int):
        return [(st, n == 0)]
    if x[2] and x[2][-1][0] == "ins":
        return [(st, False)]
    return [(st, ("sbool", ("cmp", "Eq", n, 0), False))]


@rmodel(r"bimap::btree::BiBTreeMap::<L, R>::(iter|left_values|right_values)",
        r"<&?bimap::btree::BiBTreeMap<.*> as std::iter::IntoIterator>::into_iter")
def _(I, st, f, a):
    m = f.df.split("::")[-1]
    I.map_iters = True
    if m == "into_iter" and not f.df.startswith("<&"):
        return [(st, obj("mapiter", "values", st.res(I.deref_all(st, a[0])), 0))]
    ref, x = get_map(I, st, a[0])
    return [(st, obj("mapiter", {"into_iter": "iter"}.get(m, m), st.res(x), 0))]


def map_iter(I, st, v):
    """The iterator with its entries told apart: [(st, reference, ("obj", "mapents", mode, entries))]."""
    ref, it = it_load(I, st, v)
    if isinstance(it, tuple) and it[:2] == ("obj", "mapents"):
        return [(st, ref, it)]
    if not (isinstance(it, tuple) and it[:2] == ("obj", "mapiter") and it[4] == 0):
        raise Bail("map iterator")
    out = []
    for s, es in map_entries(I, st, it[3]):
        s = s.copy()
        new = obj("mapents", it[2], tuple(es))
        if is_ref(ref):
            I.store(s, ref[1], ref[2], new)
        out.append((s, ref, new))
    return out


@rmodel(r"<bimap::btree::(Iter|LeftValues|RightValues)<.*> as std::clone::Clone>::clone")
def _(I, st, f, a):
    return [(st, it_load(I, st, a[0])[1])]


@rmodel(r"<bimap::btree::BiBTreeMap<.*> as std::clone::Clone>::clone")
def _(I, st, f, a):
    return [(st, get_map(I, st, a[0])[1])]


@rmodel(r"<bimap::btree::BiBTreeMap<.*> as std::cmp::PartialEq>::(eq|ne)")
def _(I, st, f, a):
    x, y = get_map(I, st, a[0])[1], get_map(I, st, a[1])[1]
    x, y = st.res(x), st.res(y)
    ne = f.df.endswith("ne")
    if x == y:
        return [(st, not ne)]
    if repr(y) < repr(x):
        x, y = y, x
    return [(s, b != ne) for s, b in I.decide(st, ("meq", x, y))]


@rmodel(r"<bimap::btree::(Iter|LeftValues|RightValues|IntoIter)<.*> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)")
def _(I, st, f, a):
    ref, it = it_load(I, st, a[0])
    if not (isinstance(it, tuple) and it[:2] in (("obj", "mapiter"), ("obj", "mapents"))):
        raise Bail("map iterator")
    if it[1] == "mapents" or not getattr(I, "rep_maps", False) or it[2] == "values" or it[3][2] or f.df.endswith("back"):
        out = []
        for s, ref, it in map_iter(I, st, a[0]):
            s = s.copy()
            es = it[3]
            if not es:
                out.append((s, NONE))
                continue
            e, rest = (es[-1], es[:-1]) if f.df.endswith("back") else (es[0], es[1:])
            I.store(s, ref[1], ref[2], obj("mapents", it[2], rest))
            if it[2] == "values":
                out.append((s, some(("tup", tuple(e)))))
                continue
            rs = []
            for x in e:
                ad = ("M", repr(s.res(x)))
                s.mem[ad] = x
                rs.append(("ref", ad, ()))
            out.append((s, some(("tup", tuple(rs)) if it[2] == "iter" else rs[0 if it[2] == "left_values" else 1])))
        return out
    mode, m, done = it[2:]
    if m[2]:
        raise Bail("iteration over a modified map")
    out = []
    # abstract element: the same symbolic entry stands for every entry of the map
    e = "%s.entry" % (m[1],)
    if done == 2:
        return [(st, NONE)]
    if done == 0:
        n = map_len(st, m)
        alts = [(st.copy(), False)] if n == 0 else [(w, True) for w in [st.copy()]] if m[2] and m[2][-1][0] == "ins" \
            else [(w.copy(), not e) for w, e in I.decide(st, ("cmp", "Eq", n, 0))]
    else:
        alts = [(st.copy(), True), (st.copy(), False)]
    for s, b in alts:
        if not b:
            I.store(s, ref[1], ref[2], obj("mapiter", mode, m, 2))
            out.append((s, NONE))
            continue
        I.store(s, ref[1], ref[2], obj("mapiter", mode, m, 1))
        kn = e + ".k"
        if kn not in s.lang and kn not in s.subst:
            s.newvar(kn, R.concat(R.ANY, R.lit(":")))
        k = adt("rdftk_iri::Namespace", 0, (mkstr((V(kn),)),))
        v = adt("rdftk_iri::Iri", 0, (("url", e + ".v", ()),))
        s.mem[("M", e + ".k")] = k
        s.mem[("M", e + ".v")] = v
        kr, vr = ("ref", ("M", e + ".k"), ()), ("ref", ("M", e + ".v"), ())
        out.append((s, some(("tup", (kr, vr)) if mode == "iter" else kr if mode == "left_values" else vr)))
    return out


# ------------------------------------------------------------------------------------ serde
def tree(I, ty, v):
    """A text of the tree format, next to the given type."""
    t = ty.rsplit("::", 1)[0] + "::Tree"
    return ("adt", t, [x["name"] for x in I.p.adts[t]["variants"]].index("Text"), (v,))


def tree_text(I, v):
    if is_adt(v) and v[1].endswith("::Tree") and I.p.adts[v[1]]["variants"][v[2]]["name"] == "Text":
        return v[3][0]
    return None


def wire(I, st, v, name):
    x = I.deref_all(st, v)
    return x if is_adt(x) and x[1].endswith("::" + name) else None


@rmodel(r"serde(_core)?::de::impls::<impl serde(_core)?::(de::)?Deserialize(<.*>)? for "
        r"(std::string::String|std::boxed::Box<str>|std::borrow::Cow<.*>)>::deserialize")
def _(I, st, f, a):
    x = wire(I, st, a[0], "Text")
    if x is None:
        return NotImplemented
    return [(st, ok(mkstr(S(I, st, x[3][0]))))]


@rmodel(r"<url::Url as serde(_core)?::(de::)?Deserialize(<.*>)?>::deserialize")
def _(I, st, f, a):
    x = wire(I, st, a[0], "Text")
    if x is None:
        t = tree_text(I, I.deref_all(st, a[0]))
        return NotImplemented if t is None else url_parse(I, st, f, [t])
    return url_parse(I, st, f, [x[3][0]])


@rmodel(r"bimap::serde::<impl serde(_core)?::(ser::)?Serialize for bimap::btree::BiBTreeMap<.*>>::serialize")
def _(I, st, f, a):
    x = I.deref_all(st, a[1])
    m = I.deref_all(st, a[0])
    if not (is_adt(x) and x[1].endswith("::TreeSink")) or m[0] != "bimap":
        return NotImplemented
    return [(st, ok(tree(I, x[1], m)))]


@rmodel(r"bimap::serde::<impl serde(_core)?::(de::)?Deserialize(<.*?>)? for bimap::btree::BiBTreeMap<.*>>::deserialize")
def _(I, st, f, a):
    t = tree_text(I, I.deref_all(st, a[0]))
    if not (isinstance(t, tuple) and t and t[0] == "bimap"):
        return NotImplemented
    return [(st, ok(t))]


@rmodel(r"<bimap::btree::BiBTreeMap<.*> as std::cmp::PartialEq>::eq")
def _(I, st, f, a):
    x, y = I.deref_all(st, a[0]), I.deref_all(st, a[1])
    if x == y and x[0] == "bimap":
        return [(st, True)]
    return NotImplemented


@rmodel(r"serde(_core)?::ser::impls::<impl serde(_core)?::(ser::)?Serialize for (std::string::String|str|&.*)>::serialize")
def _(I, st, f, a):
    if wire(I, st, a[1], "Sink") is None:
        return NotImplemented
    try:
        return [(st, ok(mkstr(S(I, st, a[0]))))]
    except Bail:
        return NotImplemented


@rmodel(r"<url::Url as serde(_core)?::(ser::)?Serialize>::serialize")
def _(I, st, f, a):
    x = wire(I, st, a[1], "TreeSink")
    if x is not None:
        st = st.copy()
        return [(st, ok(tree(I, x[1], mkstr(url_ser(I, st, get_url(I, st, a[0]))))))]
    if wire(I, st, a[1], "Sink") is None:
        return NotImplemented
    st = st.copy()
    return [(st, ok(mkstr(url_ser(I, st, get_url(I, st, a[0])))))]


# ------------------------------------------------------------------------------------ uuid
@rmodel(r"uuid::v4::<impl uuid::Uuid>::new_v4")
def _(I, st, f, a):
    st = st.copy()
    st.nalloc += 1
    return [(st, obj("uuid", "v4#%d" % st.nalloc))]


@rmodel(r"uuid::fmt::<impl uuid::Uuid>::(simple|hyphenated|urn|braced|as_simple|as_hyphenated)")
def _(I, st, f, a):
    u = I.deref_all(st, a[0])
    return [(st, obj("uuidfmt", f.df.split("::")[-1].replace("as_", ""), u))]


@rmodel(r"uuid::Uuid::encode_buffer")
def _(I, st, f, a):
    return [(st, obj("uuidbuf"))]


HEX = R.cset(R.CharSet.of([(0x30, 0x39), (0x61, 0x66)]))
UP = R.cset(R.CharSet.of([(0x30, 0x39), (0x41, 0x46)]))


def rep(l, n):
    return R.concat_all([l] * n)


@rmodel(r"uuid::fmt::(Simple|Hyphenated|Urn|Braced)::encode_(lower|upper)")
def _(I, st, f, a):
    x = I.deref_all(st, a[0])
    return [uuid_text(st, x, f.df.endswith("upper"))]


@rmodel(r"<uuid::(fmt::)?(Simple|Hyphenated|Uuid) as std::fmt::Display>::fmt", r"<uuid::fmt::(Simple|Hyphenated) as std::fmt::LowerHex>::fmt",
        r"uuid::fmt::<impl std::fmt::Display for uuid::Uuid>::fmt")
def _(I, st, f, a):
    x = I.deref_all(st, a[0])
    if x[:2] == ("obj", "uuid"):
        x = obj("uuidfmt", "hyphenated", x)
    st, v = uuid_text(st, x, False)
    return display_str(I, st, v, a[1])


def uuid_text(st, x, upper):
    st = st.copy()
    n = "uuid-%s-%s-%s" % (x[2], "upper" if upper else "lower", x[3][2])
    h = UP if upper else HEX
    l = {"simple": rep(h, 32),
         "hyphenated": R.concat_all([rep(h, 8), R.lit("-"), rep(h, 4), R.lit("-"), rep(h, 4), R.lit("-"), rep(h, 4), R.lit("-"), rep(h, 12)])
         }.get(x[2], R.ANY)
    if n not in st.lang and n not in st.subst:
        st.newvar(n, l)
    return (st, mkstr((V(n),)))


def agg_string(I, st, v):
    vec = v[3][0]
    if is_adt(vec) and vec[1] == "std::vec::Vec" and vec[3][1] == 0:
        return mkstr(())
    return v


def agg_formatter(I, st, v):
    o, buf = v[3]
    if is_adt(o) and isinstance(o[3][0], int) and is_ref(buf) and not buf[2]:
        fl, w, p = o[3]
        hasw, hasp = bool(fl & 0x08000000), bool(fl & 0x10000000)
        if not hasw and not hasp:
            return obj("fmt", buf[1], fmt_opts(fl, None, None))
    return v


def standard():
    m = Models()
    m.ser_url, m.url_eq, m.byte_at = ser_url, url_eq, byte_at
    m.aggregate["std::string::String"] = agg_string
    m.aggregate["std::fmt::Formatter"] = agg_formatter
    m.symbolic["url::Url"] = lambda I, st, ty, name: ("url", name, ())
    m.symbolic["bimap::BiBTreeMap"] = lambda I, st, ty, name: ("bimap", name, ())
    m.symbolic["bimap::btree::BiBTreeMap"] = m.symbolic["bimap::BiBTreeMap"]
    return m
