"""C39: operations depend on their operands only, and touch nothing else.

An effect analysis over the type-checked crates.  The functions every function of the crates names (calls or passes on;
generic functions, trait implementations and closures included) are classified by effect; and in the monomorphic, resolved
call graph of the entry points, the operations that reach a source of generated names or random numbers are determined.
"""
import re
from collections import deque

import build

COMPS = ("iri", "names", "core")
# effect -> functions that have it, by definition path
EFFECTS = [
    ("reads the environment", r"(std|core)::env::(?!split_paths|join_paths)"),
    ("uses the file system", r"std::fs::|std::path::(Path|PathBuf)::(exists|try_exists|is_file|is_dir|is_symlink|metadata|canonicalize|read_\w+)$"),
    ("uses the network", r"std::net::(Tcp|Udp)|std::net::ToSocketAddrs|std::os::"),
    ("starts or ends a process", r"std::process::(?!ExitCode)"),
    ("uses standard input or output", r"std::io::(_print|_eprint|stdin|stdout|stderr|stdio::|read_to_string|pipe|is_terminal)"),
    ("reads the clock", r"std::time::(Instant|SystemTime)::(now|elapsed)|chrono::\S*(Utc|Local)\S*::(now|today)|chrono::offset::\S*::(now|today)|"
                        r"uuid::\S*(now_v\d|get_timestamp)"),
    ("uses threads or state shared between calls",
     r"std::thread::|std::sync::(poison::)?(mutex::|rwlock::|condvar::)?(Mutex|RwLock|Condvar|Barrier|ReentrantLock)\b|std::sync::mpsc|"
     r"(std|core)::sync::atomic::"),
    ("draws random numbers", r"rand(_core|_chacha)?::|getrandom::|fastrand::|std::random::|std::hash::RandomState::|std::hash::random::RandomState::|"
                             r"std::collections::hash_map::RandomState::"),
]
EFFECTS = [(n, re.compile(r"<?&?(mut )?(%s)" % p)) for n, p in EFFECTS]
# documented to do so
ALLOWED = {"uses standard input or output": {"rdftk_core::error::print_trace", "rdftk_core::error::eprint_trace"}}
GENERATORS = re.compile(r"uuid::(v\d+::<impl uuid::Uuid>|Uuid)::(new_v[1467]|now_v\d)|<?unique_id::|rand(_core)?::|getrandom::|fastrand::")
# entry points whose operation is documented to generate names
NAMING = re.compile(r"iri_genid$|coll_reify|stmt_reify|wide_coll_reify|graph_skolemize|wide_skolemize|graph_simplify|wide_simplify|"
                    r"gname_generated$|bnode_generate|rs$|res_|wide_(seq|values|predicates|container|bag|alt)")
STATE = re.compile(r"\b(Mutex|RwLock|Cell|RefCell|UnsafeCell|Atomic\w*|ReentrantLock|Condvar)\b")
ONCE = re.compile(r"^(lazy_static::lazy::Lazy|std::sync::(LazyLock|OnceLock|once_lock::OnceLock|lazy_lock::LazyLock)|once_cell::\w+::\w+)<")


def effect(name):
    return next((n for n, p in EFFECTS if p.match(name)), None)


def called(x, out):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "fn" and isinstance(v, int):
                out.add(v)
            else:
                called(v, out)
    elif isinstance(x, list):
        for v in x:
            called(v, out)
    return out


def by_definition(datas, violations, count):
    """Functions of the crates that name a function with an effect."""
    fns = {}
    for d in datas.values():
        for f in d["scanned"]:
            fns[f["name"]] = f
    callers = {}
    for n, f in fns.items():
        for u in f["uses"]:
            callers.setdefault(u, set()).add(n)

    def only_from(n, ok):
        """Reached from functions documented to have the effect, and from nothing else."""
        if n in ok:
            return True
        if n not in fns or fns[n]["public"] or n.startswith("<"):
            return False
        seen, work = {n}, [n]
        top = False
        while work:
            for c in callers.get(work.pop(), ()):
                if c in ok:
                    top = True
                elif c not in seen:
                    if fns[c]["public"] or c.startswith("<"):
                        return False
                    seen.add(c)
                    work.append(c)
        return top

    for n, f in sorted(fns.items()):
        count["functions_checked"] += 1
        count["closures_checked"] += f["closures"]
        count["obligations"] += 1
        bad = False
        for u in f["uses"]:
            count["call_sites"] += 1
            e = effect(u)
            if e and not only_from(n, ALLOWED.get(e, ())):
                bad = True
                violations.append(dict(root=n, input="", got="%s: %s" % (e, u), facts="", functions=[n, u],
                                       expected="a result that depends on the operands only, and no other effect"))
        count["discharged"] += not bad
    for d in datas.values():
        for name, ty, mutable in d["statics"]:
            count["statics_checked"] += 1
            count["obligations"] += 1
            inner = ty
            while ONCE.match(inner):
                inner = inner[inner.index("<") + 1:].rsplit(">", 1)[0]
            if mutable or STATE.search(inner):
                violations.append(dict(root=name, input="", got="a static that can change: " + ty, facts="", functions=[],
                                       expected="no state kept between calls"))
            else:
                count["discharged"] += 1


def by_entry(datas, violations, count):
    """Entry points that reach a source of generated names."""
    for comp, d in datas.items():
        fns = {f["id"]: f for f in d["fns"]}
        edges = {i: called(f["aux"], called(f["body"], set())) for i, f in fns.items()}
        for name, start in d["roots"]:
            root = name.split("::", 1)[1]
            if root.split("::")[-1].startswith("selftest_"):
                continue
            parent, work, hit = {start: None}, deque([start]), None
            while work and hit is None:
                x = work.popleft()
                if x not in fns:
                    continue
                if GENERATORS.match(fns[x]["name"]) or GENERATORS.match(fns[x]["def"]):
                    hit = x
                    break
                for y in sorted(edges[x]):
                    if y not in parent:
                        parent[y] = x
                        work.append(y)
            count["entry_points"] += 1
            count["obligations"] += 1
            if hit is None:
                count["discharged"] += 1
                continue
            count["naming_entry_points"] += 1
            if NAMING.match(root):
                count["discharged"] += 1
                continue
            path = []
            x = hit
            while x is not None:
                path.append(fns[x]["name"])
                x = parent[x]
            violations.append(dict(root=root, input="", got="draws a generated name or random number: " + path[0], facts="",
                                   functions=path[::-1], expected="a result that depends on the operands only"))


SELF = {"std::env::var", "std::fs::read_to_string", "std::io::_print", "std::time::SystemTime::now", "std::thread::spawn",
        "std::process::exit", "std::sync::Mutex::<T>::lock", "core::sync::atomic::AtomicUsize::fetch_add", "rand::random"}
QUIET = {"std::time::Duration::as_secs", "std::sync::Arc::<T>::new", "std::io::Error::kind", "std::collections::HashMap::<K, V>::new",
         "std::fmt::Formatter::<'a>::write_str", "rdftk_names::xsd::language", "std::io::Error::new"}


def decide(tier):
    for n in SELF:
        if effect(n) is None:
            raise build.BuildError("self test: %s is not recognised as an effect" % n)
    for n in QUIET:
        if effect(n) is not None:
            raise build.BuildError("self test: %s is taken for an effect" % n)
    count = dict(functions_checked=0, closures_checked=0, statics_checked=0, call_sites=0, entry_points=0,
                 naming_entry_points=0, obligations=0, discharged=0, self_tests=len(SELF) + len(QUIET))
    violations = []
    datas = {c: build.dump(c, ("rdftk_" + c,)).data for c in COMPS}
    by_definition(datas, violations, count)
    by_entry(datas, violations, count)
    if count["functions_checked"] < 1500 or count["entry_points"] < 1000 or count["naming_entry_points"] < 20:
        raise build.BuildError("too little of the crates was found: %r" % count)
    count["explanation"] = (
        "Effect analysis: every function of the three crates (generic functions, trait implementations and closures included) "
        "and every static is classified by the functions it names; the entry points that reach a source of generated names "
        "are found in the compiler's resolved call graph. An obligation is one function, static or entry point.")
    return count, violations, [], [
        "functions of the standard library and of url, bimap, uuid, chrono, base64 other than those listed have none of the "
        "effects; panics and allocation are not effects"]
