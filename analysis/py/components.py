"""Which component decides which property, and how."""
import os
import re

import build
import models_core
import props_build
import props_core
import props_effects
import props_iri
import props_names
from absint import Program

driver = None                  # the running check.py

IRI_ASSUMPTIONS = [
    "rustc's MIR is a faithful rendering of the source, and the standard library, url, bimap, uuid and serde behave as "
    "their models in analysis/py/models.py say (their documented behaviour)",
    "an IRI held by a value was made by the url crate: its path, query and fragment are in the form that crate gives them",
]
NAMES_EXPLANATION = (
    "Abstract interpretation of the compiler's MIR of every function of the vocabulary modules, the macro's lazily "
    "initialised tables included; an obligation is one function: the texts it gives are determined and are the published "
    "ones (function-by-function table in analysis/py/vocab_table.py).")
# property -> (component, feature sets analysed by the thorough tier besides the default one)
NAMES_ASSUMPTIONS = IRI_ASSUMPTIONS[:1] + [
    "the published vocabularies are as analysis/py/vocab_table.py says (written from their specifications)"]
CORE_ASSUMPTIONS = IRI_ASSUMPTIONS[:1] + [
    "generated names (blank nodes, skolem IRIs) are met nowhere else: the generators' own uniqueness is taken as given",
    "graphs, data sets, collections and resources of the sizes the entry points build (up to three statements, graphs or "
    "elements; statements nested in statements two deep); their contents are unconstrained",
]
CORE_EXPLANATION = (
    "Abstract interpretation of the compiler's monomorphic MIR of every entry point listed (each builds a value with the "
    "crate's own operations from unconstrained symbolic nodes, IRIs and texts, and observes it), with equalities between "
    "symbolic values decided path by path; every path's result is compared with a specification written on lists and "
    "bags. An obligation is one (path, specification case) pair.")
COMPONENTS = {
    "core": dict(registry=props_core.registry, scan=("rdftk_core",), assumptions=CORE_ASSUMPTIONS,
                 self_tests=props_core.SELF_TESTS, thorough=[], explanation=CORE_EXPLANATION,
                 interp=models_core.CoreInterp),
    "names": dict(registry=props_names.registry, scan=("rdftk_names",), assumptions=NAMES_ASSUMPTIONS,
                  self_tests=props_names.SELF_TESTS, thorough=[], explanation=NAMES_EXPLANATION),
    "iri": dict(registry=props_iri.registry, scan=("rdftk_iri",), assumptions=IRI_ASSUMPTIONS,
                self_tests=props_iri.SELF_TESTS,
                thorough=[("std",), ("std", "genid"), ()]),
}


def source_roots(comp):
    with open(os.path.join(build.HERE, "roots", comp, "src", "lib.rs")) as f:
        return {n for _, _, n in build.root_spans(f.read())}


def decide(pid, tier):
    """-> (coverage, violations, undecided, assumptions)"""
    if pid == "C21":
        return props_build.decide(tier)
    if pid == "C39":
        return props_effects.decide(tier)
    comp = next((c for c in COMPONENTS if pid in property_ids(c)), None)
    if comp is None:
        raise build.BuildError("no such property: " + pid)
    spec = COMPONENTS[comp]
    sets = [None] + (list(spec["thorough"]) if tier == "thorough" else [])
    total = dict(entry_points=0, paths=0, obligations=0, discharged=0, analysed_functions=0, call_sites=0,
                 abstract_steps=0)
    violations, undecided, funcs, rows, missed = [], [], set(), [], None
    for fs in sets:
        tag = "" if fs is None else "_" + ("_".join(fs) or "none")
        d = build.dump(comp, spec["scan"], fs, tag)
        prog = Program(d.data)
        prog.interp = spec.get("interp")
        wanted = source_roots(comp)
        reg = spec["registry"](wanted | set(prog.roots) if fs is None else prog.roots)
        driver.PROG[comp] = prog
        del driver.JOBS[:]
        for root, sp, opts in reg.get(pid, ()):
            if "group" in opts:
                gone = [r for r in opts["roots"] if r not in prog.roots]
                opts = dict(opts, roots=[r for r in opts["roots"] if r in prog.roots])
                driver.JOBS.append((comp, root, sp, opts))
                violations += [dict(root=r, input="", got="does not compile: " + d.missing[r],
                                    expected="a documented public operation", facts="", functions=[])
                               for r in gone if r in d.missing]
                if [r for r in gone if r not in d.missing]:
                    raise build.BuildError("entry point %s is gone from the analysis' own crate" % gone[0])
            elif root in prog.roots:
                driver.JOBS.append((comp, root, sp, opts))
            elif root in d.missing:
                violations.append(dict(root=root, input="", got="does not compile: " + d.missing[root],
                                       expected="a documented public operation", facts="", functions=[]))
            elif fs is None:
                raise build.BuildError("entry point %s is gone from the analysis' own crate" % root)
        n = len(spec["self_tests"])
        driver.JOBS[:0] = [(comp, root, sp, opts) for root, sp, opts in spec["self_tests"]]
        for i, dis, paths, steps, fns, sites, und, vio in driver.run_all(tier):
            root = driver.JOBS[i][1]
            if i < n:
                if not vio and not und:
                    missed = root      # what it plants may not be reachable in code that is wrong
                continue
            total["entry_points"] += len(driver.JOBS[i][3].get("roots", (root,)))
            total["paths"] += paths
            total["discharged"] += dis
            total["obligations"] += dis + len(und) + len(vio)
            total["abstract_steps"] += steps
            total["call_sites"] += sites
            undecided += und
            violations += vio
            funcs |= {prog.fns[x].name for x in fns}
            if fs is None:
                rows.append({"entry_point": root, "paths": paths, "discharged": dis, "undecided": len(und),
                             "violations": len(vio)})
    if missed and not violations:
        raise build.BuildError("self test %s: the analysis missed a planted violation" % missed)
    total["analysed_functions"] = len(funcs)
    total["repo_functions"] = sorted(f for f in funcs if "rdftk_" in f and "roots_" not in f.split(" ")[0])
    total["self_tests"] = len(spec["self_tests"])
    total["feature_sets"] = len(sets)
    total["entry_point_results"] = rows
    total["explanation"] = spec.get("explanation", EXPLANATION)
    if not total["entry_points"]:
        raise build.BuildError("nothing was analysed")
    seen, uniq = set(), []
    for v in violations:
        k = (v["root"], v["got"], v["expected"])
        if k not in seen:
            seen.add(k)
            uniq.append(v)
    return total, uniq, undecided, spec["assumptions"]


EXPLANATION = (
    "Abstract interpretation of the compiler's monomorphic MIR of every entry point listed, from unconstrained symbolic "
    "arguments, over a domain of texts built from regular languages; every path's result is compared with the "
    "specification of that operation for the same abstract input. An obligation is one (path, specification case) pair; "
    "it is discharged when the code's result and the specified one coincide for every input of the case.")


def property_ids(comp):
    spec = COMPONENTS[comp]
    if "ids" not in spec:
        spec["ids"] = set(spec["registry"](source_roots(comp)))
    return spec["ids"]
