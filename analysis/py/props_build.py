"""C21: the crates build in every feature combination, without unsafe code; values are thread-safe and closed.

The rules are decided by the type checker (feature matrix, `unsafe_code` forbidden, `Send + Sync` obligations) and by
queries over the type-checked crates (field visibility, signatures of public functions, trait implementations).
"""
import fcntl
import itertools
import json
import os
import re
import shutil
import time

import build

FEATURES = {"iri": ("std", "alloc", "genid", "serde"),
            "core": ("binary_types", "chrono_types", "decimal_types", "n3_formulae", "rdf_star")}
# value types (by the crate's public path): their obligations
TYPES = {"iri": "Error error::NameParseError Iri IriRef IriPrefixMap PrefixedName Namespace Name LocalName Vocabulary".split(),
         "core": ("model::data_set::DataSet model::graph::GraphName model::graph::Graph model::literal::DataType "
                  "model::literal::Literal model::resource::Resource model::resource::Predicate model::statement::Statement "
                  "model::statement::BlankNode model::statement::Collection model::statement::ObjectNode "
                  "model::statement::SubjectNode").split()}
CLOSED = {"iri": "Iri IriPrefixMap Namespace Name LocalName".split(),
          "core": "DataSet Graph Literal Resource Predicate Statement BlankNode Collection".split()}
# an IRI is any URL, so its URL may be replaced through a reference
SHARED = {"Iri"}
OPENING = ("DerefMut", "AsMut", "BorrowMut", "IndexMut")


def feature_sets(comp, tier):
    fs = FEATURES[comp]
    sets = [c for n in range(len(fs) + 1) for c in itertools.combinations(fs, n)]
    if tier != "thorough":
        sets = [c for c in sets if len(c) in (0, 1, len(fs) - 1, len(fs))]
    return sets


def witness(comp, names):
    out = ["#![no_std]", "fn both<T: Send + Sync + 'static>() {}"]
    for i, n in enumerate(names):
        out.append("pub fn t%d() { both::<rdftk_%s::%s>() }" % (i, comp, n))
    return "\n".join(out) + "\n"


# a type that is neither, for the analysis' own test
SELF = "#![no_std]\n#[allow(unsafe_code)]\npub fn u0(x: &u8) -> u8 { unsafe { *(x as *const u8) } }\nfn both<T: Send + Sync + 'static>() {}\npub fn t0() { both::<*const u8>() }\n"


def check(dst, target, text, features, comp):
    """-> [(file or function, message)]: the errors, in the witness by function and in the crate by its own message"""
    with open(os.path.join(dst, "src", "lib.rs"), "w") as f:
        f.write(text)
    env = build.base_env()
    env.update(CARGO_TARGET_DIR=target, RUSTFLAGS="--force-warn unsafe_code")
    cmd = ["cargo", "+nightly", "check", "--offline", "--message-format", "json", "-q", "--no-default-features",
           "--features", ",".join(features)]
    r = build.run(cmd, env=env, cwd=dst)
    errs = []
    lines = text.split("\n")
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or not m["message"].get("spans"):
            continue
        crate = m.get("target", {}).get("name", "")
        code = (m["message"].get("code") or {}).get("code") or ""
        if code == "unsafe_code":
            if crate.startswith("rdftk_") or crate == "build_" + comp:
                errs.append((crate, os.path.basename(m["message"]["spans"][0]["file_name"]), "unsafe code: " + m["message"]["message"]))
            continue
        if m["message"].get("level") != "error":
            continue
        sp = [s for s in m["message"]["spans"] if s["is_primary"]] or m["message"]["spans"]
        where = os.path.basename(sp[0]["file_name"])
        if crate == "build_" + comp:
            k = re.match(r"pub fn (t\d+)", lines[sp[0]["line_start"] - 1] if sp[0]["line_start"] <= len(lines) else "")
            errs.append(("witness", k.group(1) if k else "", "%s %s" % (code, m["message"]["message"])))
        else:
            errs.append((crate, where, "%s %s" % (code, m["message"]["message"])))
    if r.returncode and not errs:
        raise build.BuildError("the feature matrix cannot be checked:\n" + r.stderr[-2000:])
    return errs


def matrix(comp, tier, violations, count):
    src = os.path.join(build.HERE, "roots", "build_" + comp)
    dst = os.path.join(build.WORK, "build_" + comp)
    target = os.path.join(build.WORK, "target_build")
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    with open(os.path.join(src, "Cargo.toml")) as f, open(os.path.join(dst, "Cargo.toml"), "w") as g:
        g.write(f.read().replace('"/repo/', '"%s/' % build.REPO))
    shutil.copyfile(os.path.join(src, "Cargo.lock"), os.path.join(dst, "Cargo.lock"))
    names = TYPES[comp]
    full = FEATURES[comp]
    found = check(dst, target, SELF, full, comp)
    if ("witness", "t0") not in [e[:2] for e in found]:
        raise build.BuildError("self test: a type that is not thread-safe was accepted")
    if not any(e[0] == "build_" + comp and e[2].startswith("unsafe code") for e in found):
        raise build.BuildError("self test: unsafe code was not found")
    text = witness(comp, names)
    for fs in feature_sets(comp, tier):
        count["feature_sets_checked"] += 1
        count["obligations"] += 1 + len(names)
        errs = check(dst, target, text, fs, comp)
        shown = "features [%s]" % ", ".join(fs)
        bad = set()
        for crate, where, msg in errs:
            if crate == "witness" and where:
                n = names[int(where[1:])]
                if n in bad:
                    continue
                bad.add(n)
                violations.append(dict(root="rdftk_%s::%s" % (comp, n), input=shown, got=msg, functions=[], facts="",
                                       expected="a value type that is Send, Sync and 'static"))
            elif crate == "witness":
                raise build.BuildError("the witness crate does not compile: " + msg)
            else:
                unsafe = msg.startswith("unsafe code")
                violations.append(dict(root="%s/%s" % (crate, where), input=shown, got=msg, functions=[], facts="",
                                       expected="no unsafe code" if unsafe else "every combination of features builds"))
        count["discharged"] += 1 + len(names) - min(1 + len(names), len(errs))


def closed(comp, violations, count):
    d = build.dump(comp, ("rdftk_" + comp,)).data
    crate = "rdftk_" + comp
    last = {}
    for a in d["adt_list"]:
        last.setdefault(a["name"].split("::")[-1], []).append(a)
    for n in CLOSED[comp]:
        hits = last.get(n, [])
        if not hits:
            raise build.BuildError("type %s is not found in %s" % (n, crate))
        for a in hits:
            count["obligations"] += 1
            if a["open"]:
                violations.append(dict(root=a["name"], input="", got="public field " + ", ".join(a["open"]), facts="",
                                       functions=[], expected="a private representation"))
            else:
                count["discharged"] += 1
    for im in d["impls"]:
        count["impls_checked"] += 1
        tr, ty = im["trait"].split("::")[-1], im["args"].split("<")[0].split("::")[-1]
        if tr in OPENING and ty in CLOSED[comp] and ty not in SHARED:
            violations.append(dict(root=im["name"], input="", got="an implementation of " + tr, facts="", functions=[],
                                   expected="a private representation"))
    for f in d["scanned"]:
        if not f["public"] or "->" not in f["sig"]:
            continue
        count["signatures_checked"] += 1
        res = f["sig"].split("->", 1)[1]
        owner = re.search(r"&(?:'\w+ )?mut [\w:]*?(\w+)\b(?!::)", f["sig"].split("->", 1)[0])
        if owner is None or owner.group(1) not in CLOSED[comp] or owner.group(1) in SHARED:
            continue
        count["mutating_signatures"] += 1
        for m in re.finditer(r"&(?:'\w+ )?mut (?:\[)?([\w:]+)", res):
            t = m.group(1)
            if not t.startswith("rdftk_") and t not in ("Self", "dyn", "impl"):
                violations.append(dict(root=f["name"], input="", got="hands out &mut " + t, facts="", functions=[],
                                       expected="a private representation"))


def decide(tier):
    violations = []
    count = dict(feature_sets_checked=0, obligations=0, discharged=0, impls_checked=0, signatures_checked=0, mutating_signatures=0, self_tests=4)
    os.makedirs(build.WORK, exist_ok=True)
    lock = open(os.path.join(build.WORK, "matrix.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        for comp in ("iri", "core"):
            matrix(comp, tier, violations, count)
    finally:
        lock.close()
    for comp in ("iri", "core"):
        closed(comp, violations, count)
    if count["signatures_checked"] < 50 or count["mutating_signatures"] < 5 or count["impls_checked"] < 100:
        raise build.BuildError("fewer signatures or implementations found than the crates have")
    count["explanation"] = (
        "Type checking of both crates in each feature combination with the unsafe_code lint on, together with a witness crate "
        "that requires Send + Sync + 'static of every value type (an obligation per type and combination); queries over the "
        "type-checked crates for public fields, signatures that hand out mutable references to foreign types, and "
        "implementations of DerefMut, AsMut, BorrowMut and IndexMut.")
    seen, uniq = set(), []
    for v in violations:
        k = (v["root"], v["got"], v["expected"])
        if k not in seen:
            seen.add(k)
            uniq.append(v)
    return count, uniq, [], ["rustc's type checker and its visibility information", "cargo builds path dependencies with the features asked for"]
