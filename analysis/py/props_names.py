"""The vocabulary modules of rdftk_names against the published vocabularies (vocab_table.py)."""
from absint import Bail, Interp, State, V, is_str, lin
import models
from spec import Outcome
from vocab_table import TABLE

VOCABULARIES = "C24"


def texts(I, st, v):
    """A tuple of texts; None where a text is not determined."""
    out = []
    for x in v[1]:
        x = I.deref_all(st, x)
        out.append(models.text(st.resolve(x[1]), st) if is_str(x) else None)
    return out


def expected(root):
    mod, name = root.split("__", 1)
    prefix, ns, terms = next(t for m, t in TABLE.items() if m.replace("::", "_") == mod)
    if name == "vocabulary":
        return [ns, ns, prefix]
    t = terms[name]
    if t is None:
        return "no such term in the vocabulary"
    return [ns + t, t, prefix + ":" + t]


def check_group(prog, roots):
    """All functions of one module: the value each of them gives is determined, and is the published one."""
    o = Outcome()
    I = Interp(prog, models.standard())
    for root in roots:
        f = prog.roots[root]
        try:
            if root.startswith("selftest_"):
                exp = ["http://www.w3.org/2002/07/owl#Class", "Class", "owl:Class"]
            else:
                exp = expected(root)
            rs = I.call(State(), f.id, [])
        except Bail as e:
            o.undecided.append("%s: %s" % (root, e))
            continue
        o.paths += len(rs)
        for r in rs:
            if r.kind == "panic":
                got = "panic: %s (in %s)" % (r.val[0], r.val[1])
            else:
                got = texts(I, r.st, r.val)
                if got == exp:
                    o.discharged += 1
                    continue
                if r.st.notes or None in got:
                    o.undecided.append("%s: %s" % (root, "; ".join(sorted(r.st.notes)) or "the text is not determined"))
                    continue
            o.violations.append({"root": root, "input": "()", "got": show(got), "expected": show(exp), "facts": "",
                                 "functions": [prog.fns[f.id].name]})
    o.steps, o.functions, o.sites = I.steps, set(I.visited), len(I.calls)
    return o


def show(x):
    return x if isinstance(x, str) else ", ".join(x)


def member(c, st, got):
    """The n-th member of a container is the namespace with '_' and n."""
    st = st.copy()
    n = models.int_text(c.I, st, c.I.deref_all(st, c.args[0]))
    head = TABLE["rdf"][1]
    u = ("url", "const:" + head[:-1], (("frag", models.some(models.mkstr(("_",) + n))),))
    return [(st, models.mkstr(models.url_ser(c.I, st, u)))]


def member_qname(c, st, got):
    st = st.copy()
    n = models.int_text(c.I, st, c.I.deref_all(st, c.args[0]))
    return [(st, models.mkstr((TABLE["rdf"][0] + ":_",) + n))]


def groups(roots):
    out = {}
    for r in roots:
        if "__" in r and not r.startswith("selftest"):
            out.setdefault(r.split("__")[0], []).append(r)
    return out


def registry(roots):
    l = [("module " + m, None, {"group": check_group, "roots": rs}) for m, rs in sorted(groups(roots).items())]
    l += [("rdf_member", member, {}), ("rdf_member_qname", member_qname, {})]
    return {VOCABULARIES: l}


SELF_TESTS = [("selftest_names", None, {"group": check_group, "roots": ["selftest_names"]})]
