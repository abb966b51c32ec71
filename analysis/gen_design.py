"""Writes ../DESIGN.md from design_head.md, properties.jsonl, known_findings.json, seeded/*/meta.json and the evidence of
the last runs (numbers only; a property without evidence gets none).  Not part of any check."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
    "C01": "entry points parse, test and build a prefix from an unconstrained text; accepting paths carry the language of texts that take them, compared with the DFA of `PN_PREFIX? ':'` written from the SPARQL grammar. The whole (infinite) language is compared; tests sample it.",
    "C02": "as C01 with the DFA of the documented name grammar.",
    "C03": "parse of an unconstrained text; expected: split at the first ':', both halves in the DFAs of C01/C02, result made of exactly those halves.",
    "C04": "the complement of C01–C03: on every rejecting path the error's variant and payload text are compared with the documented one for that region of texts.",
    "C05": "printing (Display, to_string, AsRef, Deref, Into) of an unconstrained valid name gives its text on every formatter setting; parsing the printed text again follows the accepting path only and gives an equal value.",
    "C06": "the three unchecked constructors on any text; result text compared symbolically.",
    "C07": "constructor/accessor/mutator pairs on unconstrained valid parts; includes `_mut` accessors, into_parts, conversions.",
    "C08": "an IRI is an opaque URL; constructors, Deref, AsRef, conversions and formatting with and without '#' are compared with the URL's text in and out of brackets.",
    "C09": "set_fragment/query/path on a symbolic URL with component overrides; the result's every other component, and the original, must be the input's terms.",
    "C10": "the predicate is explored into the regions of (fragment, query, path) on which it answers true; compared with the stated formula.",
    "C11": "splitting an unconstrained URL; expected computed from its components by the stated rule, loops over path segments folded into languages.",
    "C12": "`make_name` composed with split, both ways, on unconstrained URLs and valid ASCII names (an IRI with a non-empty fragment is left unspecified: the documentation says nothing). Bound: names in the round trip are ASCII, because the url crate percent-encodes others.",
    "C13": "the map is a symbolic bijection (any base content, any size) plus the operations made; each operation's result and every later lookup are compared with the bijection's, by case split on which keys coincide. Where the code looks something up by going through the entries, the map has the entries met by lookups and up to two more.",
    "C14": "expand after compress and compress after expand over a symbolic bijection and symbolic names/IRIs.",
    "C15": "constant propagation through the lazily initialised tables; compared with the W3C's namespace list.",
    "C16": "as C15 for the vocabulary objects and their setters/getters.",
    "C17": "every entry point of rdftk_iri is explored for panic paths (unwrap, expect, indexing, slicing at a char boundary, arithmetic overflow, RefCell); feasible ones are violations except the documented conversions.",
    "C18": "for pairs (triples for transitivity) of unconstrained values eq/cmp/partial_cmp/hash are explored and related; hash by comparing the data fed to an abstract hasher.",
    "C19": "the generated IRI is compared with base + '/.well-known/genid/' + a fresh UUID term drawn in this call.",
    "C20": "conversions, Display and source of every error variant with symbolic payloads.",
    "C21": "type checking under each feature combination; Send/Sync/'static witnesses that fail to compile; `unsafe_code` forced to warn; queries over ADTs, signatures and impls for open representations.",
    "C22": "constructors, conversions, accessors and try_as of references on unconstrained IRIs and qualified names.",
    "C23": "serialisation into an abstract serialiser, then deserialisation of what it was given (text, and structured form); every text, accepting language compared with C01–C03's DFAs.",
    "C24": "one entry point per vocabulary function (415): constants propagated through OnceLock/lazy tables, compared with tables of the published vocabularies in `vocab_table.py`; container membership properties with a symbolic index.",
    "C25": "every constructor/conversion/accessor of nodes, collections and statements on symbolic operands of every kind; set_* on a statement leaves the rest.",
    "C26": "pairs/triples of values of every kind; equality, order, reversed order, partial order and hash data related to each other and to structural equality.",
    "C27": "Display with symbolic texts and formatter flags, kind by kind; literal by data type.",
    "C28": "each named type against the XSD list; `From<Iri>` explored on an unconstrained IRI (finite set of named ones + the rest).",
    "C29": "constructors from symbolic native values; lexical forms as terms of the value; equality with native values; decoding explored on symbolic bytes and characters (of one to four UTF-8 bytes) and on 132-byte sequences.",
    "C30": "graphs of 0–3 symbolic statements × every pattern; the result must be the sub-bag selected by equality of parts, on every aliasing; and of 130 distinct ones.",
    "C31": "as C30 for edits and histories (up to four on symbolic statements, hundreds on distinct ones); clone, merge, dedup, name/mapping frame conditions.",
    "C32": "expected statements have holes for generated names; results compared up to the choice of names; nesting to depth one in subject/object; lists to 130 members.",
    "C33": "data sets of 0–3 graphs whose names are symbolic and optional (all coincidences); 130 named ones with histories.",
    "C34": "as C25 for graph names.",
    "C35": "each builder operation and combinations; nested resources and containers as trees; expected statements with holes as in C32.",
    "C36": "feature constants by constant propagation; `supports_feature` on an unconstrained IRI.",
    "C37": "each From/helper/Display/source of the model's error with symbolic payloads; chains for the trace; decoding errors from symbolic characters.",
    "C38": "the entry points of C25–C37 explored for panic paths, as C17.",
    "C39": "every function of the three crates (generic ones, trait impls, closures and nested functions included): the functions its type-checked body names are classified by effect; statics by type (lock, atomic, cell, mutable); and the resolved call graph of the entry points is searched for sources of generated names and random numbers, the operations reaching one compared with the documented list.",
}


def evidence(pid):
    try:
        c = json.load(open(os.path.join(V, "evidence", pid + ".json")))["coverage"]
    except OSError:
        return ""
    ks = [("entry_points", "entry points"), ("paths", "paths"), ("obligations", "obligations"), ("functions", "functions")]
    return ", ".join("%d %s" % (c[k], n) for k, n in ks if c.get(k))


out = [open(os.path.join(V, "analysis", "design_head.md")).read().rstrip(), "", "## 3. Property by property", "",
       "The statement, quantifier and bounds of each are in properties.jsonl; this says how it is decided. Numbers are of the "
       "quick tier on the unchanged tree.", ""]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    e = evidence(p["id"])
    out.append("- **%s %s.** How: %s Over: %s.%s Beyond tests: %s" % (
        p["id"], p["title"], HOW[p["id"]], p["quantifier"]["text"], " (%s.)" % e if e else "", p["why_tests_cant"]))
out += ["", "Not applicable: none of the listed properties. (Section 2 lists what was not made into a property and why.)", ""]
k = json.load(open(os.path.join(V, "known_findings.json")))
out += ["## 4. Genuine defects", "", "Open (known_findings.json; each run prints them as KNOWN-FINDING). They are terms the published "
        "vocabularies do not define; removing or renaming a public function is the maintainers' decision, so they are recorded, "
        "not repaired:", ""]
out += ["- %s `%s`: %s" % (f["property"], f["entry"], f["what"]) for f in k["findings"]]
out += ["", "Repaired, one `fix:` commit each in /repo; reverting any of them makes the named property's check report it again "
        "(all were tried):", ""]
out += ["- " + f[len("fixed: "):] for f in k["fixed"]]
out += ["", open(os.path.join(V, "analysis", "design_tail.md")).read().rstrip(), "", "## 6. Planted bugs", "",
        "Each was confirmed in a scratch clone (builds, stable tests pass, demonstration fails with it and passes without) and "
        "each is reported by the check of the property it is filed under (last column: what it needs to show).", "",
        "| seed | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], " ".join(str(m["needs"]).split()).replace("|", "/")[:160]))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
