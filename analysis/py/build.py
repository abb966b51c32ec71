"""Turns /repo's working tree into the data the analyses work on.

The entry-point crates of analysis/roots depend on /repo's crates by path.  They are type-checked
with the nightly compiler under `mirdump`, a compiler driver that writes the monomorphic MIR of
everything an entry point reaches.  Nothing of /repo is executed.
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))      # /verif/analysis
# (the two variables are for work on the analysis itself; a registered check never sets them)
WORK = os.environ.get("RDFTK_ANALYSIS_WORK") or os.path.join(os.path.dirname(HERE), ".work")
REPO = os.environ.get("RDFTK_ANALYSIS_REPO") or "/repo"


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        r = run(["rustc", "+nightly", "--print", "sysroot"])
        if r.returncode:
            raise BuildError("no nightly compiler: " + r.stderr)
        _sysroot = r.stdout.strip()
    return _sysroot


def base_env():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR",
              "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def driver():
    """Compile the driver, if this was not done before."""
    os.makedirs(WORK, exist_ok=True)
    src, exe = os.path.join(HERE, "driver", "driver.rs"), os.path.join(WORK, "mirdump")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    r = run(["rustc", "+nightly", "--edition", "2024", "-O", src, "-o", exe + ".new"], env=base_env(), cwd=WORK)
    if r.returncode:
        raise BuildError("the driver does not compile:\n" + r.stderr[-3000:])
    os.replace(exe + ".new", exe)
    return exe


class Dump:
    def __init__(self, data, missing, wall):
        self.data, self.missing, self.wall = data, missing, wall


ROOT = re.compile(r"^\s*pub fn ([A-Za-z0-9_]+)")


def root_spans(text):
    """Line ranges of the entry points: [(first, last, name)]"""
    out = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        m = ROOT.match(lines[i])
        if m:
            depth, j, seen = 0, i, False
            while j < len(lines):
                s = re.sub(r"'(\\.|[^\\'])'", "' '", re.sub(r'"(\\.|[^"\\])*"', '""', lines[j]))
                depth += s.count("{") - s.count("}")
                seen = seen or "{" in s
                if seen and depth <= 0:
                    break
                j += 1
            out.append((i, j, m.group(1)))
            i = j
        i += 1
    return out


def dump(component, scan=(), features=None, tag=""):
    """Check the entry points of a component -> Dump.

    An entry point that no longer compiles is taken out and reported as missing."""
    exe = driver()
    name = "roots_" + component
    src = os.path.join(HERE, "roots", component)
    dst = os.path.join(WORK, name + tag)
    out = os.path.join(WORK, "dump" + tag)
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(WORK, name + tag + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        t0 = time.time()
        os.makedirs(os.path.join(dst, "src"), exist_ok=True)
        with open(os.path.join(src, "Cargo.toml")) as f, open(os.path.join(dst, "Cargo.toml"), "w") as g:
            g.write(f.read().replace('"/repo/', '"%s/' % REPO))
        shutil.copyfile(os.path.join(src, "Cargo.lock"), os.path.join(dst, "Cargo.lock"))
        text = open(os.path.join(src, "src", "lib.rs")).read()
        missing = {}
        env = base_env()
        env.update(LD_LIBRARY_PATH=sysroot() + "/lib", RUSTC_WRAPPER=exe, MIRDUMP_CRATES=name, MIRDUMP_OUT=out,
                   MIRDUMP_STOP=os.path.join(HERE, "stop.txt"), MIRDUMP_SCAN=",".join(scan),
                   RUSTFLAGS="-Zalways-encode-mir -Zmir-enable-passes=-CheckAlignment,-CheckNull --cap-lints allow", CARGO_TARGET_DIR=os.path.join(WORK, "target" + tag))
        path = os.path.join(out, name + ".json")
        cmd = ["cargo", "+nightly", "check", "--offline", "--message-format", "json", "-q"]
        if features is not None:
            cmd += ["--no-default-features", "--features", ",".join(features)]
        for _ in range(12):
            with open(os.path.join(dst, "src", "lib.rs"), "w") as f:
                f.write(text)
            if os.path.exists(path):
                os.remove(path)
            r = run(cmd, env=env, cwd=dst)
            if r.returncode == 0 and os.path.exists(path):
                break
            spans = root_spans(text)
            lines = text.split("\n")
            bad = {}
            other = []
            for l in r.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
                    continue
                hit = False
                if m.get("target", {}).get("name") == name:
                    for s in m["message"].get("spans", ()):
                        while s and s.get("expansion") and not s["file_name"].endswith("src/lib.rs"):
                            s = s["expansion"]["span"]
                        for a, b, n in spans:
                            if s["is_primary"] and s["file_name"].endswith("src/lib.rs") and a <= s["line_start"] - 1 <= b:
                                bad.setdefault(n, (a, b, m["message"]["message"]))
                                hit = True
                if not hit and m["message"].get("spans"):
                    other.append(m["message"].get("rendered") or m["message"]["message"])
            if not bad:
                raise BuildError("the crates under analysis do not compile:\n" + ("\n".join(other) or r.stderr)[-3000:])
            for n, (a, b, why) in bad.items():
                missing[n] = why
                for k in range(a, b + 1):
                    lines[k] = ""
            text = "\n".join(lines)
        else:
            raise BuildError("entry points keep failing to compile: %r" % missing)
        with open(path) as f:
            data = json.load(f)
        return Dump(data, missing, time.time() - t0)
    finally:
        lock.close()
