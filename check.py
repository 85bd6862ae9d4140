#!/usr/bin/env python3
"""Decides one property of cubing.rs by symbolic execution of the real code.

  check.py PROPERTY [quick|thorough]   run the check (default: $VERIF_TIER or quick)
  check.py --build                     build everything the checks need
  check.py --replay FILE               run a recorded counterexample again

Exit 0: the property held on everything explored. Exit 1, with a line
"VIOLATION property=<id> replay=<path>": a counterexample that the real code
reproduced. Exit 2: no answer (the exploration was not completed, a harness was
vacuous, or the encoding and the real code disagree).
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
REPO = "/repo"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS, HARNESSES, ASSUMPTIONS  # noqa: E402

ENV = dict(os.environ)
for k in list(ENV):
    if k.startswith(("CARGO_PROFILE", "CARGO_BUILD", "RUSTFLAGS", "CARGO_ENCODED", "RUSTC")):
        del ENV[k]
ENV.update(
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
)
# two crates of harnesses: one over the libraries, one over the command line tool
CRATES = ("lib", "cli")
LL = {"lib": os.path.join(BUILD, "h.ll"), "cli": os.path.join(BUILD, "cli.ll")}
NATIVE = {
    ("lib", "dev"): os.path.join(BUILD, "nat", "nat", "native"),
    ("lib", "release"): os.path.join(BUILD, "nat", "natrel", "native"),
    ("cli", "dev"): os.path.join(BUILD, "natcli", "nat", "native"),
    ("cli", "release"): os.path.join(BUILD, "natcli", "natrel", "native"),
}
CLI = os.path.join(BUILD, "gen", "cli")


def crate_of(harness):
    return HARNESSES[harness].get("crate", "lib")


def src_of(crate):
    return os.path.join(HERE, "harness") if crate == "lib" else CLI


SYMEX = os.path.join(BUILD, "eng", "release", "symex")


class NoAnswer(Exception):
    pass


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            fs = [d]
        else:
            fs = []
            for r, ds, f in os.walk(d):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build"))
                fs += [os.path.join(r, x) for x in f]
        for p in sorted(fs):
            h.update(p.encode() + b"\0")
            try:
                with open(p, "rb") as g:
                    h.update(g.read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


def cargo(cwd, target, args, log):
    e = dict(ENV, CARGO_TARGET_DIR=target)
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(os.path.join(BUILD, log), "w") as f:
        f.write(r.stdout)
    if r.returncode != 0:
        raise NoAnswer("cargo %s failed:\n%s" % (" ".join(args), "\n".join(r.stdout.splitlines()[-40:])))


def stamp(name):
    return os.path.join(BUILD, name + ".stamp")


def fresh(name, h):
    try:
        return open(stamp(name)).read() == h
    except OSError:
        return False


def done(name, h):
    with open(stamp(name), "w") as f:
        f.write(h)


def forget(target):
    """Make cargo build the harness and the code under test again."""
    for pat in ("*/.fingerprint/harness-*", "*/.fingerprint/cubing*", "*/deps/harness*", "*/deps/libharness*",
                "*/deps/libcubing*", "*/.fingerprint/shim_*", "*/.fingerprint/alg_cli-*", "*/deps/libalg_cli*",
                "*/incremental/harness*", "*/incremental/cubing*"):
        for p in glob.glob(os.path.join(target, pat)):
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


def build_engine():
    src = os.path.join(HERE, "engine")
    h = tree_hash([os.path.join(src, "src"), os.path.join(src, "Cargo.toml")])
    if fresh("eng", h) and os.path.exists(SYMEX):
        return
    for p in glob.glob(os.path.join(BUILD, "eng", "release", ".fingerprint", "symex-*")):
        shutil.rmtree(p)
    cargo(src, os.path.join(BUILD, "eng"), ["build", "--release", "--offline", "-q"], "eng.log")
    done("eng", h)


def code_hash(crate):
    hd = os.path.join(HERE, "harness")
    own = [os.path.join(REPO, "cubing_core"), os.path.join(REPO, "cubing_macros"), os.path.join(REPO, "Cargo.toml"),
           os.path.join(hd, "src"), os.path.join(hd, "Cargo.toml")]
    if crate == "lib":
        own += [os.path.join(hd, "shim_syn"), os.path.join(hd, "shim_proc_macro"), os.path.join(hd, "Cargo.lock")]
    else:
        own += [os.path.join(REPO, "alg_cli"), os.path.join(REPO, "cubing"), os.path.join(hd, "cli"),
                os.path.join(hd, "shim_clap"), os.path.join(hd, "shim_std")]
    return tree_hash(own)


def copy_sources(src, out, change):
    for r, ds, fs in os.walk(src):
        ds[:] = [d for d in ds if d not in ("target", "tests")]
        d = os.path.join(out, os.path.relpath(r, src))
        os.makedirs(d, exist_ok=True)
        for f in fs:
            with open(os.path.join(r, f), "rb") as g:
                b = g.read()
            if f.endswith(".rs"):
                b = change(b)
            with open(os.path.join(d, f), "wb") as g:
                g.write(b)


def make_cli():
    """The command line tool of /repo as a library whose arguments, input, output and end are the harness's, and the crate of
    its harnesses."""
    hd = os.path.join(HERE, "harness")
    out = os.path.join(BUILD, "gen", "alg_cli")
    shutil.rmtree(out, ignore_errors=True)

    def change(b):
        b = re.sub(rb"(?<![:\w])(::)?std\s*::", b"shim_std::", b)
        return re.sub(rb"^(\s*)fn main\s*\(", rb"\1pub fn main(", b, flags=re.M)

    copy_sources(os.path.join(REPO, "alg_cli"), out, change)
    p = os.path.join(out, "main.rs")
    s = open(p).read()
    head = re.match(r"(?:\s*(?://[^\n]*\n|#!\[[^\]]*\]))*", s)[0]
    use = "#[allow(unused_imports)]\nuse shim_std::{eprint, eprintln, print, println};\n"
    open(p, "w").write(head + use + s[len(head):])
    with open(os.path.join(out, "Cargo.toml"), "w") as f:
        f.write('''[package]
name = "alg_cli"
version = "0.0.0"
edition = "2021"
publish = false

[lib]
path = "main.rs"

[dependencies]
clap = { package = "shim_clap", path = "%s/shim_clap" }
clap_complete = "4.3.2"
shim_std = { path = "%s/shim_std" }
cubing = { path = "%s/cubing" }
''' % (hd, hd, REPO))
    shutil.rmtree(CLI, ignore_errors=True)
    os.makedirs(os.path.join(CLI, "src", "all"))
    for f in ("lib.rs", "native.rs", "all/rt.rs"):
        shutil.copyfile(os.path.join(hd, "src", f), os.path.join(CLI, "src", f))
    shutil.copyfile(os.path.join(hd, "cli", "h_cli.rs"), os.path.join(CLI, "src", "all", "h_cli.rs"))
    if os.path.exists(os.path.join(hd, "cli", "Cargo.lock")):
        shutil.copyfile(os.path.join(hd, "cli", "Cargo.lock"), os.path.join(CLI, "Cargo.lock"))
    with open(os.path.join(CLI, "src", "all", "mod.rs"), "w") as f:
        f.write("""#[macro_use]
pub mod rt;
pub mod h_cli;
type Table = &'static [(&'static str, extern "C" fn())];
#[allow(dead_code)]
pub const TABLES: &[Table] = &[h_cli::TABLE];
""")
    t = open(os.path.join(hd, "Cargo.toml")).read()
    a = t.index("[dependencies]")
    b = t.index("[workspace]")
    with open(os.path.join(CLI, "Cargo.toml"), "w") as f:
        f.write(t[:a] + '''[dependencies]
alg_cli = { path = "../alg_cli" }
shim_std = { path = "%s/shim_std" }
cubing = { path = "%s/cubing" }

''' % (hd, REPO) + t[b:])


def make_macros():
    """The procedural macros of /repo as an ordinary crate: the same sources without the attribute, with `proc_macro2` for
    `proc_macro` and a `syn` whose `parse_macro_input!` takes its token streams."""
    src = os.path.join(REPO, "cubing_macros", "src")
    out = os.path.join(BUILD, "gen", "cubing_macros")
    shutil.rmtree(out, ignore_errors=True)

    def change(b):
        b = re.sub(rb"#\[\s*(::\s*)?(proc_macro\s*::\s*)?proc_macro\s*\]", b"", b)
        return re.sub(rb"extern\s+crate\s+proc_macro\s*;", b"", b)

    copy_sources(src, os.path.join(out, "src"), change)
    with open(os.path.join(out, "Cargo.toml"), "w") as f:
        f.write('''[package]
name = "cubing_macros"
version = "0.0.0"
edition = "2021"
publish = false

[dependencies]
cubing_core = { path = "%s/cubing_core" }
proc_macro = { package = "shim_proc_macro", path = "%s/harness/shim_proc_macro" }
proc-macro2 = { version = "1", default-features = false }
quote = { version = "1", default-features = false }
syn = { package = "shim_syn", path = "%s/harness/shim_syn" }
''' % (REPO, HERE, HERE))


def build_ir(crate, h):
    name = "ir" if crate == "lib" else "ircli"
    if fresh(name, h) and os.path.exists(LL[crate]):
        return
    t = os.path.join(BUILD, name)
    if os.path.exists(stamp(name)):
        os.unlink(stamp(name))
    forget(t)
    cargo(src_of(crate), t, ["rustc", "--offline", "-q", "--lib", "--", "-C", "save-temps"], name + ".log")
    bc = glob.glob(os.path.join(t, "debug", "deps", "harness.panic*.rcgu.o.*.rcgu.bc"))
    if len(bc) != 1:
        raise NoAnswer("the compiler left %d bitcode files" % len(bc))
    root = subprocess.run(["rustc", "--print", "sysroot"], env=ENV, capture_output=True, text=True).stdout.strip()
    dis = os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis")
    subprocess.run([dis, bc[0], "-o", LL[crate]], check=True)
    for p in glob.glob(os.path.join(t, "debug", "deps", "*.rcgu.*")):
        os.unlink(p)
    done(name, h)


def build_native(crate, h):
    name = "nat" if crate == "lib" else "natcli"
    if fresh(name, h) and all(os.path.exists(NATIVE[crate, p]) for p in ("dev", "release")):
        return
    t = os.path.join(BUILD, name)
    if os.path.exists(stamp(name)):
        os.unlink(stamp(name))
    forget(t)
    for prof in ("nat", "natrel"):
        cargo(src_of(crate), t, ["build", "--offline", "-q", "--profile", prof, "--bin", "native"], name + prof + ".log")
    done(name, h)


def build(crates=CRATES):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        hs = {c: code_hash(c) for c in crates}
        if "lib" in crates and not (fresh("ir", hs["lib"]) and fresh("nat", hs["lib"])
                                    and os.path.exists(os.path.join(BUILD, "gen", "cubing_macros", "Cargo.toml"))):
            make_macros()
        if "cli" in crates and not (fresh("ircli", hs["cli"]) and fresh("natcli", hs["cli"])
                                    and os.path.exists(os.path.join(CLI, "Cargo.toml"))):
            make_cli()
        with cf.ThreadPoolExecutor(5) as ex:
            fs = [ex.submit(build_engine)]
            for c in crates:
                fs += [ex.submit(build_ir, c, hs[c]), ex.submit(build_native, c, hs[c])]
            for f in fs:
                f.result()


# ---------------------------------------------------------------- replay
def native(profile, harness, tier, inputs, timeout=20, valgrind=False):
    cmd = [NATIVE[crate_of(harness), profile], harness, str(tier)] + [str(v) for _, v in inputs]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=45", "--redzone-size=4096", "--leak-check=no",
               "--main-stacksize=33554432"] + cmd
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors="replace",
                           env=dict(ENV, RUST_BACKTRACE="0"))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else "", ""


def outcome(rc, out):
    """What a native run did, in words."""
    if rc == 0:
        return "finished"
    if rc == 41:
        return "assert " + (re.search(r"^ASSERT (\d+)", out, re.M) or [0, "?"])[1]
    return {40: "inputs ran out", 42: "assumption", 43: "panic", 44: "allocator misuse", 45: "memory error",
            "timeout": "does not end"}.get(rc, "killed by signal %d" % -rc if isinstance(rc, int) and rc < 0 else "exit %s" % rc)


BAD = {"panic", "allocator misuse", "memory error", "does not end"}


def reproduces(cand, what):
    k = cand["kind"]
    if what.startswith("assert "):
        return True
    if k in ("memory", "uninit", "layout", "alloc", "unreachable", "abort"):
        return what in BAD or what.startswith("killed by")
    if k == "stack":
        return what.startswith("killed by")
    if k == "hang":
        return what == "does not end" or what.startswith("killed by")
    return what in BAD or what.startswith("killed by")


def miri(harness, tier, cand):
    """Runs a harness of two threads in Miri under many schedules: the first way in which it fails."""
    for rate, seeds in (("0.1", 32), ("0.5", 96), ("0.02", 64)):
        r = miri_seeds(harness, tier, cand, rate, seeds)
        if r:
            return r
    return None


def miri_seeds(harness, tier, cand, rate, seeds):
    t = os.path.join(BUILD, "miri")
    for d in (t, os.path.join(t, "miri"), os.path.join(t, "miri", "x86_64-unknown-linux-gnu")):
        forget(d)
    e = dict(ENV, CARGO_TARGET_DIR=t, RUSTUP_TOOLCHAIN="nightly", RUST_BACKTRACE="0",
             MIRIFLAGS="-Zmiri-many-seeds=0..%d -Zmiri-preemption-rate=%s -Zmiri-disable-isolation -Zmiri-ignore-leaks" % (seeds, rate))
    cmd = ["cargo", "miri", "run", "--offline", "-q", "--bin", "native", "--", harness, str(tier)]
    try:
        r = subprocess.run(cmd + [str(v) for _, v in cand["inputs"]], cwd=os.path.join(HERE, "harness"), env=e,
                           capture_output=True, text=True, errors="replace", timeout=150)
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r"^error: (Undefined Behavior|the evaluated program deadlocked|abnormal termination)[^\n]*", r.stderr, re.M)
    if m:
        return m[0][7:]
    m = re.search(r"^ASSERT (\d+)", r.stdout, re.M)
    if m:
        return "assert " + m[1]
    m = re.search(r"^PANIC [^\n]*", r.stderr, re.M)
    return "panic: " + m[0][6:] if m else None


def replay(harness, tier, cand):
    """Runs a counterexample on the real code; the profiles in which it fails."""
    got = []
    if HARNESSES[harness].get("threads"):
        # what happens depends on the schedule
        for prof in ("dev", "release"):
            for _ in range(100 if cand["kind"] != "race" else 0):
                rc, out, err = native(prof, harness, tier, cand["inputs"])
                what = outcome(rc, out)
                if reproduces(cand, what):
                    return [(prof, what, (err.strip().splitlines() or [""])[0][:300])]
        what = miri(harness, tier, cand)
        return [("Miri, some schedule", what, "")] if what else []
    for prof in ("dev", "release"):
        rc, out, err = native(prof, harness, tier, cand["inputs"])
        what = outcome(rc, out)
        if reproduces(cand, what):
            got.append((prof, what, (err.strip().splitlines() or [""])[0][:300]))
        elif cand["kind"] in ("memory", "uninit", "alloc", "layout", "unreachable", "abort") and shutil.which("valgrind"):
            rc, out, err = native(prof, harness, tier, cand["inputs"], 60, True)
            what = outcome(rc, out)
            if reproduces(cand, what):
                lines = [x for x in err.splitlines() if x.startswith("==")]
                got.append((prof + " under valgrind", what, (lines or [""])[0][:300]))
    return got


def known():
    """known-findings.txt: lines `known: property=<id> harness=<h> kind=<k> detail=<d> :: <what fails>`."""
    res = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) harness=(\S+) kind=(\S+) detail=(.*?) inputs=(\S+) :: (.*)", line)
            if m:
                res.append(m.groups())
    except OSError:
        pass
    return res


def is_known(pid, harness, c):
    for p, h, k, d, i, w in known():
        if (p, h, k, d) == (pid, harness, c["kind"], c["detail"]) and i in ("*", ",".join(str(v) for _, v in c["inputs"])):
            return w
    return None


def check(pid, tier):
    t0 = time.time()
    spec = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    limit = 3000 if thorough else 800
    os.makedirs(EVID, exist_ok=True)
    for p in glob.glob(os.path.join(EVID, pid + ".*")):
        os.unlink(p)
    crate = crate_of(spec["harnesses"][0])
    build((crate,))
    build_s = time.time() - t0
    todo = [h for h in spec["harnesses"] if thorough or not HARNESSES[h].get("thorough_only")]
    entries = []
    problems = []
    partial = []  # what the time limit cut short
    violations = []
    finding_lines = []
    tn = 1 if thorough else 0
    z3 = ""
    while todo and not violations:
        left = limit - (time.time() - t0) - 15
        if left < 20:
            problems.append("no time left for " + ", ".join(todo))
            break
        out = os.path.join(BUILD, "out-%s-%d.json" % (pid, os.getpid()))
        cmd = [SYMEX, "--ll", LL[crate], "--out", out, "--tier", str(tn), "--seed", str(seed), "--time", str(int(left)),
               "--samples", "24"] + todo
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
        if r.returncode != 0 or not os.path.exists(out):
            raise NoAnswer("the executor failed (%s): %s" % (r.returncode, r.stderr[-2000:]))
        res = json.load(open(out))
        os.unlink(out)
        z3 = res["z3"]
        ran = []
        for e in res["entries"]:
            if e.get("skipped"):
                continue
            ran.append(e["entry"])
            entries.append(e)
            bad = []
            for c in e["candidates"]:
                got = replay(e["entry"], tn, c)
                w = is_known(pid, e["entry"], c) if got else None
                if w:
                    finding_lines.append("KNOWN-FINDING: property=%s %s" % (pid, w))
                elif got:
                    violations.append((e, c, got))
                else:
                    bad.append(c)
            if bad and not violations:
                for c in bad[:3]:
                    problems.append("%s: %s %s with inputs %s does not happen in the real code" % (
                        e["entry"], c["kind"], c["detail"], [v for _, v in c["inputs"]]))
        todo = [h for h in todo if h not in ran]
    # vacuity, completeness
    for e in entries:
        h = e["entry"]
        if e["candidates"]:
            continue
        slow = [w for w in e["incomplete"] if w == "time limit" or w.startswith("solver gave no answer within")]
        if slow and set(e["incomplete"]) <= set(slow) | {"stopped early"} and e["paths"] and e["asserts"]:
            # everything that was explored counts, and the evidence says that it is not everything
            partial.append("%s was stopped after %d paths and %d assertions, before every value within "
                           "the bounds was decided (%s)" % (h, e["paths"], e["asserts"], "; ".join(slow)))
            continue
        if e["incomplete"]:
            problems.append("%s was not explored completely: %s" % (h, "; ".join(e["incomplete"][:3])))
        miss = [c for c in HARNESSES[h]["covers"] if c not in e["covers"]]
        if miss:
            problems.append("%s is vacuous: points %s were not reached" % (h, miss))
        if e["asserts"] == 0 and not HARNESSES[h].get("no_asserts"):
            problems.append("%s is vacuous: no assertion was reached" % h)
    # the encoding against the real code, on concrete inputs of this run
    traces = 0
    jobs = [(e, s) for e in entries for s in e["samples"]]

    def one(job):
        e, s = job
        rc, out, err = native("dev", e["entry"], tn, s["inputs"], 60)
        obs = [int(x) for x in re.findall(r"^OBS (\d+)", out, re.M)]
        want = "EXPECTED-PANIC" if s["outcome"] == "P" else "DONE"
        ok = rc == 0 and obs == s["obs"] and want in out
        return ok, "%s %s: expected %s %s, the real code: %s %s" % (
            e["entry"], [v for _, v in s["inputs"]], want, s["obs"][:20], outcome(rc, out), obs[:20])

    if not violations:
        with cf.ThreadPoolExecutor(8) as ex:
            for ok, msg in ex.map(one, jobs):
                if ok:
                    traces += 1
                elif len(problems) < 20:
                    problems.append("encoding and code disagree: " + msg)
    write_evidence(pid, spec, tier, seed, entries, traces, violations, problems, partial, z3, build_s, t0)
    for f in finding_lines:
        print(f)
    if violations:
        best = min(violations, key=lambda v: len(v[1]["inputs"]))
        e, c, got = best
        path = os.path.join(EVID, pid + ".replay.json")
        text = HARNESSES[e["entry"]].get("asserts", {}).get(str(c["detail"]), "")
        with open(path, "w") as f:
            json.dump({"property": pid, "harness": e["entry"], "tier": tn, "kind": c["kind"], "detail": c["detail"],
                       "what": text, "inputs": c["inputs"], "trace": c["trace"],
                       "reproduced": [{"profile": p, "outcome": w, "message": m} for p, w, m in got],
                       "run": "python3 /verif/check.py --replay " + path}, f, indent=1)
        print("%s: %s %s %s; inputs %s; the real code: %s" % (
            e["entry"], c["kind"], c["detail"], texts().get(str(c["detail"]), ""), [v for _, v in c["inputs"]],
            "; ".join("%s: %s %s" % g for g in got)))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if problems:
        for p in problems:
            print("NO ANSWER: " + p)
        return 2
    for p in partial:
        print("NOT EXHAUSTIVE: " + p)
    print("%s %s: %d paths, %d assertions, %d solver queries, %d traces replayed, %.0f s" % (
        pid, "held on everything explored in the time" if partial else "holds within the bounds", sum(e["paths"] for e in entries), sum(e["asserts"] for e in entries), sum(e["queries"] for e in entries),
        traces, time.time() - t0))
    return 0


def texts():
    """The text of every assertion, from the harness sources."""
    t = {}
    for p in glob.glob(os.path.join(HERE, "harness", "src", "all", "*.rs")) + glob.glob(os.path.join(HERE, "harness", "cli", "*.rs")):
        for m in re.finditer(r'check!\((\d+) "([^"]*)"', open(p).read()):
            t[m[1]] = m[2]
    return t


def write_evidence(pid, spec, tier, seed, entries, traces, violations, problems, partial, z3, build_s, t0):
    tot = lambda k: sum(e[k] for e in entries)
    tx = texts()
    funcs = {}
    for e in entries:
        for n, hit, nb, insts, miss in e["functions"]:
            if hit and "cubing" in n:
                a = funcs.setdefault(n, [0, nb, insts])
                a[0] = max(a[0], hit)
    samples = []
    for e in entries:
        for s in e["samples"][:2]:
            samples.append({"harness": e["entry"], "inputs": [v for _, v in s["inputs"]],
                            "outcome": "returns" if s["outcome"] == "R" else "panics as required",
                            "observed": s["obs"][:24]})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "explanation": "Symbolic execution of the LLVM IR of the harness and the code under test; states are the "
                           "symbolic states that ended (explored paths), transitions the IR instructions executed on "
                           "symbolic states, traces_validated_against_impl the concrete inputs of this run's paths "
                           "whose observations were compared with a native run of the same harness.",
            "states": tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": traces,
            "samples": samples[:40],
            "exhaustive": not problems and not violations and not partial,
            "not_exhaustive_because": partial,
            "forks": tot("forks"),
            "paths_cut_by_assumptions": tot("cut"),
            "assertions_decided": tot("asserts"),
            "assertions_decided_by_folding_only": tot("asserts_folded"),
            "solver": {"name": z3, "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"),
                       "unknown": tot("unknown"), "answers_from_cache": tot("cache_hits"),
                       "seconds": round(tot("solver_us") / 1e6, 3), "slowest_query_ms": round(max([e["max_query_us"] for e in entries] or [0]) / 1e3, 1),
                       "byte_tables_proved_equal": tot("tables"), "decided_on_byte_tables": tot("table_decisions")},
            "bounds": {h: HARNESSES[h][tier if tier in HARNESSES[h] else "quick"] for h in spec["harnesses"]},
            "outside": spec.get("outside", ""),
            "harnesses": [{"name": e["entry"], "paths": e["paths"], "panics_required": e["panicked"], "assertions": e["asserts"],
                           "queries": e["queries"], "covers": e["covers"], "seconds": e["wall_s"],
                           "longest_path_instructions": e["max_path_steps"], "candidates": len(e["candidates"])} for e in entries],
            "functions_encoded": [{"name": n, "blocks_reached": a[0], "blocks": a[1], "instructions": a[2]}
                                  for n, a in sorted(funcs.items())],
            "problems": problems,
            "build_s": round(build_s, 1),
        },
        "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "--build":
            build()
            return 0
        if a[0] == "--replay":
            r = json.load(open(a[1]))
            build((crate_of(r["harness"]),))
            got = replay(r["harness"], r["tier"], r)
            for p, w, m in got:
                print("%s: %s %s" % (p, w, m))
            if got:
                print("VIOLATION property=%s replay=%s" % (r["property"], a[1]))
            return 1 if got else 0
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], "thorough" if tier == "thorough" else "quick")
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
