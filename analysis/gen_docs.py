#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IRI = "rdftk_iri/src/iri.rs"
PN = "rdftk_iri/src/pname.rs"
MAP = "rdftk_iri/src/map.rs"
VOC = "rdftk_iri/src/vocab.rs"
ERR = "rdftk_iri/src/error.rs"

AI = ("static analysis: abstract interpretation of the compiler's monomorphic MIR (disjunctive, path sensitive, "
      "regular-language text domain, loop automata), compared path by path with a specification of the operation")

P = []


def prop(pid, title, statement, text, why, files, mech, over=("inputs",), technique=AI, note=None, na=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((pid, {"id": pid, "title": title, "statement": statement,
                    "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why, "anchors": a},
              technique, note, na))


prop("C01", "A prefix is accepted exactly when it is a SPARQL PNAME_NS",
     "Parsing a text as a namespace prefix succeeds if and only if the text is an optional SPARQL 1.1 PN_PREFIX followed by "
     "one ':', and then the value's text is that text. Constructing one from a bare name adds the ':' only if it is missing "
     "and accepts exactly the same language afterwards. The validity predicate answers true for exactly the texts that parse.",
     "every text (any sequence of Unicode scalar values of any length)",
     "The tests try a few dozen literals and random samples; the language is infinite and its character classes cover more "
     "than a million code points with gaps that samples miss.",
     [PN], [("Namespace::from_str, new_named, is_valid_str and the grammar predicates", PN)])
prop("C02", "A local name is accepted exactly when it is in the documented name grammar",
     "Parsing a text as a local name succeeds if and only if it starts with PN_CHARS_U or a digit, continues with PN_CHARS or "
     "'.', and does not end in '.' (PN_LOCAL without ':' and escapes), and then the value's text is that text. The validity "
     "predicate answers true for exactly the texts that parse.",
     "every text", "Samples cannot establish equality of two infinite languages.",
     [PN], [("Name::from_str, is_valid_str and the grammar predicates", PN)])
prop("C03", "A qualified name splits at its first ':' into a valid prefix and local name",
     "Parsing a text as a qualified name succeeds if and only if it contains a ':', the part up to and including the first "
     "':' is a valid prefix and the rest is a valid local name; the value then consists of exactly those two parts.",
     "every text", "The position of the separator and both sub-grammars range over all texts; tests have a few literals.",
     [PN], [("LocalName::from_str", PN)])
prop("C04", "A rejected name is reported with the documented error and the offending text",
     "A text rejected as a prefix, local name or qualified name gives the documented kind of error: empty text, missing "
     "separator (no ':' at the end of a prefix, none at all in a qualified name), too many separators (a prefix with another "
     "':' before the final one), and invalid character otherwise. Every kind except the empty one carries the text that was "
     "rejected (for a qualified name whose part is invalid: the error of that part).",
     "every rejected text", "The classification partitions an infinite set; tests sample one or two texts per class.",
     [PN, ERR], [("Namespace::from_str, Name::from_str, LocalName::from_str", PN), ("NameParseError", ERR)])
prop("C05", "Names print as their text and parse back to an equal value",
     "Display, to_string, AsRef<str>, conversion to String and clone of a prefix or local name give exactly its text, and of "
     "a qualified name exactly the prefix text followed by the local name. Parsing the printed form of any valid value gives "
     "an equal value. The CURIE form of a qualified name is its printed form in square brackets.",
     "every valid prefix, local name and qualified name, including prefixes and local names made without a check", "The values are infinitely many; tests use a handful.",
     [PN], [("Display, AsRef, From<..> for String, LocalName::as_curie", PN)])
prop("C06", "Unchecked constructors keep the text, adding only a missing ':' to a prefix",
     "The unchecked constructors never fail and keep the given text unchanged, except that a prefix not ending in ':' gets "
     "one ':' appended.",
     "every text", "Quantifies over all texts, including invalid ones.",
     [PN], [("Namespace::new_unchecked, Name::new_unchecked, LocalName::new_unchecked", PN)])
prop("C07", "Parts of prefixes and qualified names are what they were made from",
     "The default prefix is ':', a prefix is reported to be the default one exactly if its text is ':', and its bare name is "
     "its text without the final ':' (none for the default prefix). Qualifying a local name in a prefix, from either side, "
     "and making a qualified name directly or in the default prefix give exactly the given parts back.",
     "every valid prefix and local name, including prefixes and local names made without a check", "Quantifies over all valid names.",
     [PN], [("Namespace::{new_default,is_default,name_string,qualify}, Name::qualify, LocalName accessors", PN)])
prop("C08", "An IRI keeps its URL and prints it, by default in angle brackets",
     "Parsing a text as an IRI gives what the URL parser gives for the text with one pair of enclosing angle brackets "
     "removed if both are present, including its error. Conversions to and from URLs, mutable access and clone keep the URL "
     "unchanged. Display prints the serialised URL between '<' and '>', the alternate form and the string view print it without.",
     "every text and every URL", "Quantifies over all texts and URLs.",
     [IRI], [("FromStr, TryFrom, From<Url>, AsRef, AsMut, Display for Iri", IRI)])
prop("C09", "Replacing a component of an IRI changes only that component of a copy",
     "Replacing the path, replacing, emptying or removing the fragment of an IRI gives an IRI that differs from the "
     "original in exactly that component, set as given. The original IRI is unchanged.",
     "every IRI and every replacement text", "Quantifies over all IRIs (with and without query, fragment, opaque path).",
     [IRI], [("Iri::with_new_path, with_new_fragment, with_empty_fragment, with_no_fragment", IRI)])
prop("C10", "An IRI looks like a namespace iff empty fragment, or path ends '/' and no query",
     "An IRI is reported to look like a namespace exactly when it has an empty fragment, or else its path ends in '/' and it "
     "has no query.",
     "every IRI", "Quantifies over all combinations of present, absent and empty components.",
     [IRI], [("Iri::looks_like_namespace", IRI)])
prop("C11", "An IRI splits into namespace and name by fragment, else by last path segment",
     "An IRI with a fragment splits into itself with an empty fragment and the fragment if that is a valid local name; "
     "without fragment and query it splits into the path up to and including its last '/' and the segment after it if that "
     "is a valid local name; in every other case it does not split. The namespace and name queries agree with the split.",
     "every IRI", "Quantifies over all IRIs and all fragment and path texts; opaque paths and empty fragments are rare inputs.",
     [IRI], [("Iri::split, namespace, name", IRI)])
prop("C12", "Adding a name to a namespace IRI is the inverse of splitting it",
     "Adding a local name to an IRI with an empty fragment sets the fragment, to an IRI without fragment and query whose "
     "path ends in '/' appends it to the path, and to any other IRI without a fragment gives nothing. Splitting the result "
     "(for a name that needs no percent-encoding) gives the namespace IRI and name back; adding the name of a split IRI to "
     "its namespace gives the IRI back.",
     "every IRI without a non-empty fragment and every local name", "Quantifies over all IRIs and names.",
     [IRI], [("Iri::make_name, Iri::split", IRI)])
prop("C13", "A prefix map is a one-to-one mapping and every operation keeps it one",
     "A prefix map behaves as a set of (prefix, IRI) pairs in which no prefix and no IRI occurs twice: insertion adds the "
     "given pair and displaces exactly the pairs that share its prefix or its IRI, removal removes exactly the given "
     "prefix's pair, clear removes all, and the default-namespace operations act on the prefix ':'. Lookups in both "
     "directions, length, emptiness, equality, clone, iteration and the printed form agree with that set; adding a "
     "vocabulary inserts its prefix and IRI (or panics if one of them is invalid).",
     "every map (any history of operations), prefix and IRI", "Tests run a few fixed histories with distinct keys; "
     "displacement on collisions and the agreement of both directions quantify over all histories.",
     [MAP], [("IriPrefixMap", MAP)], over=("inputs", "histories"), state=[("map", "bidirectional prefix map", MAP)])
prop("C14", "Expanding a qualified name and compressing an IRI are inverse",
     "Expanding a qualified name gives the IRI made by adding its local name to the IRI its prefix stands for, and nothing "
     "if the prefix is unknown or that IRI takes no name; compressing an IRI splits it and gives the prefix of the namespace "
     "part with the name, and nothing if it does not split or the namespace is unknown (the reference form then gives the "
     "IRI itself). Expanding a compressed IRI gives the IRI, and compressing an expanded qualified name (whose name needs no "
     "percent-encoding) gives the qualified name.",
     "every map, IRI and qualified name (namespaces without a non-empty fragment)",
     "Quantifies over all maps, IRIs and names at once.",
     [MAP, IRI], [("IriPrefixMap::{expand,compress,compress_to_iriref}", MAP), ("Iri::{split,make_name}", IRI)],
     over=("inputs", "histories"))
prop("C15", "The default and common prefix maps hold the W3C's namespace IRIs",
     "The default map consists of exactly owl, rdf, rdfs and xsd, and the common map of these with dcterms, skos and void, "
     "each bound to the namespace IRI its specification publishes.",
     "the two maps as whole sets", "Tests look up single entries; that nothing else is bound or displaced is a statement "
     "about every prefix.",
     [MAP, VOC], [("IriPrefixMap::default, common", MAP), ("vocabulary constants", VOC)])
prop("C16", "Predefined vocabularies name the published prefix and IRI",
     "Every predefined vocabulary has the conventional prefix and the namespace IRI published for it, and a vocabulary's "
     "accessors give back the prefix, IRI and description it was made with. Its prefix as a namespace is that prefix with "
     "':' and its IRI as a value is the parsed IRI; each panics exactly if the text is not valid.",
     "every predefined vocabulary; every prefix, IRI and description text",
     "The tests check single constants; the accessors quantify over all texts.",
     [VOC], [("Vocabulary and the VOCABULARY_* constants", VOC)])
prop("C17", "No operation panics, except the documented vocabulary conversions",
     "No public operation on names, IRIs, references, prefix maps, vocabularies and errors panics, whatever its operands: "
     "text of any length and content, any IRI (opaque paths, no host, empty components), any map. The only exceptions are "
     "the conversions of a vocabulary's texts, documented to panic if these are invalid.",
     "every operand of every public operation", "Panics hide in rare operands (opaque paths, multi-byte characters at a "
     "slice boundary, empty components); tests sample few.",
     [PN, IRI, MAP, VOC, ERR], [("every public function of the crate", "rdftk_iri/src/lib.rs")])
prop("C18", "Equality, order and hash of names, IRIs and references agree",
     "Two prefixes, local names, IRIs, or qualified names are equal exactly if their texts (part by part) are; their total "
     "order is the lexicographic order of the texts (of IRIs: of their serialisation) and the partial order agrees with it; "
     "the hash depends on nothing but the text. A prefix and a qualified name in a reference are never equal and prefixes "
     "order first, and an IRI never equals a prefixed name.",
     "every pair of values, including prefixes and local names made without a check", "Laws over all pairs of values; tests compare few.",
     [PN, IRI, VOC], [("PartialEq, Ord, PartialOrd, Hash of the value types", PN), ("the same for IRIs and references", IRI)])
prop("C19", "A generated IRI is the base's well-known genid location with a fresh UUID",
     "Generating a Skolem IRI from a base gives the base joined with the path '/.well-known/genid/' followed by a freshly "
     "drawn random (version 4) UUID, and the URL error exactly if the base cannot be joined.",
     "every base IRI", "Quantifies over all bases, including opaque ones; freshness is a property of every call.",
     [IRI], [("Iri::genid", IRI)])
prop("C20", "Errors convert, chain and describe themselves without loss",
     "Converting a name or URL error into the crate's error keeps it as the payload and exposes it as the source; name "
     "errors have no source. The message of every error contains the offending text or the message of the wrapped error.",
     "every error value", "Quantifies over all payload texts and variants.",
     [ERR], [("Error, NameParseError", ERR)])
prop("C22", "References keep the IRI or prefixed name they were made from",
     "Converting prefixes and qualified names, by value or reference, into prefixed names, and IRIs and prefixed names into "
     "references, gives a value of exactly the corresponding kind whose accessor returns the original and whose other "
     "accessors return nothing. A reference prints exactly as what it refers to.",
     "every valid prefix, qualified name and IRI, including prefixes and local names made without a check", "Quantifies over all values.",
     [PN, IRI], [("PrefixedName conversions and Display", PN), ("IriRef conversions and Display", IRI)])
prop("C23", "Serialised names and IRIs are their text, and only valid text deserialises",
     "A prefix, local name or IRI serialises as its text (an IRI without angle brackets). A text deserialises into a prefix "
     "or local name exactly if parsing accepts it, with the same value, and into an IRI exactly if the URL parser accepts it. "
     "A prefix, local name, qualified name, prefixed name, IRI reference or prefix map serialised in a self-describing format that names "
     "its parts (structs as maps of fields, enum variants by name) deserialises from that into an equal value.",
     "every value and every serialised text", "Quantifies over all texts; the tests round-trip a few values.",
     [PN, IRI], [("serde attributes and TryFrom<String>", PN), ("serde attributes", IRI)])

NOTE_AI = ("Decided on every path of the compiled code from unconstrained symbolic operands, nothing executed. Trusted: "
           "rustc's MIR, and the models of std, url, bimap, uuid and serde in analysis/py/models.py. Paths on which the "
           "interpreter would have to approximate are counted as undecided in the evidence (none on this tree).")

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen_more.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))


def main():
    P.sort(key=lambda x: x[0])
    with open(os.path.join(TOP, "properties.jsonl"), "w") as f:
        for _, d, *_ in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 analysis/setup.py",
         "checks": [{"property": pid, "quick_cmd": "python3 analysis/check.py %s --tier quick" % pid,
                     "thorough_cmd": "python3 analysis/check.py %s --tier thorough" % pid,
                     "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": "other",
                     "level_note": note or NOTE_AI} for pid, _, tech, note, na in P if not na],
         "not_applicable": [{"property": pid, "reason": na} for pid, _, tech, note, na in P if na],
         "notes": "Known findings and repairs: known_findings.json. One analysis decides several properties; each check "
                  "rebuilds what it needs from /repo's working tree."}
    with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
