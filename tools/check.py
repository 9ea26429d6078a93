#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--tier quick|thorough] [--seed N]
                                   check.py --setup          build only
                                   check.py --replay FILE    run one replay file again

Builds the harness (/verif/harness) against /repo's current working tree, replays the committed
regression cases of the property (/verif/corpus/ID), then runs its generators, once optimised and
once with overflow checks and debug assertions. Writes /verif/evidence/ID.json.
Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself failed.
"""
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
PROFILES = ("release", "checked")
HOOKED = ("C15",)  # built with --cfg deflate_verif (profile "hooked")
# Coverage-guided search, seconds per tier. Not for C10 and C11, whose oracles allow some slack for
# the heuristics of the encoder: a search for extremes would be a search for their limits.
GUIDED = {"quick": 0, "thorough": 600}
GUIDED_CASES = 400000
UNGUIDED = ("C10", "C11", "C16")
BITS32 = ("C16",)  # needs the library built for wasm32 as well; compared with the build with overflow checks
WORKERS = 8
GIB = 1 << 30

# property: (level, share of the case counts for the build with overflow checks)
LEVEL = {"C07": "fault_enumeration", "C08": "fault_enumeration", "C14": "fault_enumeration"}
CHECKED_SCALE = 0.35
ASSUMPTIONS = [
    "the strict inflate decoder, checksums and reference models in /verif/harness/src are right "
    "(the decoder is cross-checked with miniz_oxide on the streams of C01)",
    "only the generated cases are covered; sizes are at most a few hundred KiB except where C02, C06 and C12 stream more",
    "features: the default build plus `gzip`",
    "64-bit little-endian; 32-bit pointers only where C16 compares with them (WebAssembly)",
]


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def profiles(pid):
    return ("hooked",) if pid in HOOKED else ("checked",) if pid in BITS32 else PROFILES


without_hook = []


def build(profs):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    cwd = os.path.join(VERIF, "harness")
    for prof in profs:
        # Never trust time stamps to find out whether /repo changed.
        subprocess.run(["cargo", "clean", "--offline", "--profile", prof, "-p", "deflate", "-p", "vh"], cwd=cwd, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for prof in profs:
        e = dict(env, RUSTFLAGS="--cfg deflate_verif") if prof in ("hooked", "guided") else dict(env)
        if prof == "guided":
            e["RUSTC_WRAPPER"] = os.path.join(VERIF, "tools", "covwrap.sh")
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--profile", prof], cwd=cwd, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and prof in ("hooked", "guided"):
            # A change moved code away from under the hook: do without the counters.
            print(r.stdout[-3000:], file=sys.stderr)
            print("the hook does not build any more; building without it", file=sys.stderr)
            e.pop("RUSTFLAGS")
            without_hook.append(prof)
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "--profile", prof], cwd=cwd, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:], file=sys.stderr)
            die("building the harness failed (%s)" % prof)


def build32():
    """The library for wasm32-unknown-unknown, with a standard library built from the toolchain's sources."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, "t32"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    cwd = os.path.join(VERIF, "harness32")
    vend = os.path.join(TARGET, "vend32")

    def step(*cmd):
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:], file=sys.stderr)
            die("building for 32 bits failed (%s)" % " ".join(cmd[:3]))
        return r.stdout
    os.makedirs(TARGET, exist_ok=True)
    shutil.rmtree(vend, ignore_errors=True)
    step("cargo", "+nightly", "vendor", "--offline", "--locked", vend)
    root = step("rustc", "+nightly", "--print", "sysroot").strip()
    std = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
    for n in os.listdir(std):
        os.symlink(os.path.join(std, n), os.path.join(vend, n))
    target = ["--offline", "--release", "--target", "wasm32-unknown-unknown"]
    subprocess.run(["cargo", "+nightly", "clean", "-p", "deflate", "-p", "vh32"] + target, cwd=cwd, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    step("cargo", "+nightly", "build", "--locked", "-Zbuild-std=std,panic_abort", "--config", 'source.crates-io.replace-with="v"',
         "--config", 'source.v.directory="%s"' % vend, *target)
    shutil.copy(os.path.join(TARGET, "t32/wasm32-unknown-unknown/release/vh32.wasm"), os.path.join(TARGET, "vh32.wasm"))


def vh(prof):
    return os.path.join(TARGET, prof, "vh")


def limits(mem, cpu=None):
    def f():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def how(rc):
    if rc < 0:
        try:
            return "killed by " + signal.Signals(-rc).name
        except ValueError:
            return "killed by signal %d" % -rc
    return "exit status %d" % rc


def replay(prof, path):
    """(failed, message); failed is None if it could not be decided."""
    with open(path) as f:
        # node reserves a lot of address space
        bits32 = json.load(f)["property"] in BITS32
    try:
        r = subprocess.run([vh(prof), "replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=700 if bits32 else 400, preexec_fn=limits(0 if bits32 else 4 * GIB, 100))
    except subprocess.TimeoutExpired:
        # Waiting without using CPU time (a deadlock), or starved.
        return (True, "no result after 400 s")
    if r.returncode == 0:
        return (False, r.stdout.strip())
    if r.returncode == 1:
        return (True, r.stdout.strip())
    if r.returncode < 0:
        if -r.returncode in (signal.SIGXCPU, signal.SIGKILL):
            return (True, "no result after 100 s of CPU time")
        return (True, how(r.returncode) + ": " + r.stderr.strip()[-500:])
    return (None, how(r.returncode) + ": " + (r.stdout + r.stderr).strip()[-500:])


def save(pid, prof, case, message):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    out = {"property": pid, "arm": case["arm"], "profile": prof, "case": case["case"], "message": message}
    h = hashlib.sha256(json.dumps(out["case"], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (pid, case["arm"].replace(" ", "_"), h))
    with open(path, "w") as f:
        json.dump(out, f)
        f.write("\n")
    return path


def run_generators(pid, prof, tier, seed, scale, salt, budget, work):
    """(stats, violations [(case, message)])"""
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    out = os.path.join(work, "stats.json")
    cmd = [vh(prof), "run", pid, "--tier", tier, "--seed", str(seed), "--work", work, "--out", out,
           "--scale", str(scale), "--salt", str(salt), "--budget", str(budget)]
    for attempt in range(2):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               timeout=budget + 400, preexec_fn=limits(0 if pid in BITS32 else 14 * GIB))
            rc, log = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            rc, log = None, "timeout"
        if rc in (0, 1):
            with open(out) as f:
                st = json.load(f)
            return st, [(f, f["message"]) for f in st["failures"]]
        # It died or got stuck: one of the cases being run must be the reason.
        print("harness (%s): %s\n%s" % (prof, "timeout" if rc is None else how(rc), log[-1500:]), file=sys.stderr)
        cand = sorted(os.path.join(work, n) for n in os.listdir(work) if n.startswith("current-"))
        for line in log.splitlines():
            if line.startswith("STUCK "):
                p = line[6:].strip()
                cand = [p] + [c for c in cand if c != p]
        for c in cand:
            try:
                with open(c) as f:
                    case = json.load(f)
            except ValueError:
                continue
            failed, msg = replay(prof, c)
            if failed:
                st = {"arms": {}, "budget_hit": False, "rule": "", "wall_s": 0}
                return st, [(case, msg)]
    die("the harness ended abnormally and no single case reproduces it")


def run_guided(pid, seed, budget, cases, work):
    """Workers of the coverage-guided search: (stats of all together, violations [(case, message)])"""
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    procs = []
    for w in range(WORKERS):
        d = os.path.join(work, str(w))
        cmd = [vh("guided"), "run", pid, "--seed", str(seed), "--worker", str(w), "--work", d, "--out", os.path.join(work, "%d.json" % w),
               "--cases", str(cases), "--budget", str(budget)]
        log = open(os.path.join(work, "%d.log" % w), "w")
        procs.append(subprocess.Popen(cmd, stdout=log, stderr=log, preexec_fn=limits(3 * GIB)))
        log.close()
    end = time.time() + budget + 400
    st = {"arms": {}, "budget_hit": False, "rule": "", "wall_s": 0}
    violations = []
    for w, p in enumerate(procs):
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        if rc in (0, 1):
            with open(os.path.join(work, "%d.json" % w)) as f:
                d = json.load(f)
            for name, arm in d["arms"].items():
                o = st["arms"].setdefault(name, {"listed": False, "cases": 0, "evaluations": 0, "distinct_nontrivial": 0, "classes": {},
                                                 "samples": [], "slowest_case_ms": 0, "kept": 0, "edges": 0, "not_meaningful": 0})
                for k in ("cases", "evaluations", "distinct_nontrivial", "not_meaningful"):
                    o[k] += arm[k]
                o["kept"] += arm["corpus"]
                for k in ("slowest_case_ms", "edges"):
                    o[k] = max(o[k], arm[k])
                for k, n in arm["classes"].items():
                    o["classes"][k] = o["classes"].get(k, 0) + n
            violations += [(f, f["message"]) for f in d["failures"]]
            continue
        c = os.path.join(work, str(w), "current-0.json")
        try:
            with open(c) as f:
                case = json.load(f)
        except (OSError, ValueError):
            die("a worker of the guided search ended abnormally (%s)" % (rc if rc is None else how(rc)))
        failed, msg = replay("guided", c)
        if not failed:
            die("a worker of the guided search ended abnormally (%s), but its case passes" % (rc if rc is None else how(rc)))
        violations.append((case, msg))
    return st, violations


def main():
    a = sys.argv[1:]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    if a[:1] == ["--setup"]:
        build(PROFILES + ("hooked",))
        build32()
        return 0
    if a[:1] == ["--replay"]:
        with open(a[1]) as f:
            case = json.load(f)
        prof = case.get("profile", "release")
        build((prof,))
        if case["property"] in BITS32:
            build32()
        failed, msg = replay(prof, a[1])
        print(msg)
        return 2 if failed is None else int(failed)
    pid = a[0]
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
    if tier not in ("quick", "thorough"):
        die("tier " + tier)
    start = time.time()
    profs = profiles(pid)
    guided = int(opt("--guided", GUIDED[tier] if pid not in UNGUIDED else 0))
    build(profs + (("guided",) if guided else ()))
    if pid in BITS32:
        build32()
    built = time.time()

    violations = []  # (profile, case, message)
    corpus = os.path.join(VERIF, "corpus", pid)
    replayed = 0
    for n in sorted(os.listdir(corpus)) if os.path.isdir(corpus) else []:
        p = os.path.join(corpus, n)
        for prof in profs:
            failed, msg = replay(prof, p)
            if failed is None:
                die("%s: %s" % (p, msg))
            replayed += 1
            if failed:
                with open(p) as f:
                    violations.append((prof, json.load(f), "regression case %s: %s" % (n, msg)))
                break

    stats = {}
    budget = {"quick": (270, 130), "thorough": (3000, 1200)}[tier]
    if not violations:
        for i, prof in enumerate(profs):
            st, v = run_generators(pid, prof, tier, seed, 1 if i == 0 else CHECKED_SCALE, i, budget[i],
                                   os.path.join(VERIF, "work", pid, prof))
            stats[prof] = st
            violations += [(prof, c, m) for c, m in v]
            if violations:
                break

    if guided and not violations:
        st, v = run_guided(pid, seed, guided, GUIDED_CASES, os.path.join(VERIF, "work", pid, "guided"))
        stats["guided"] = st
        for c, m in v:
            p = save(pid, "guided", c, m)
            prof = next((x for x in profs if replay(x, p)[0]), "guided")
            os.remove(p)
            violations.append((prof, c, m))

    evals, distinct, samples, arms, rule = replayed, 0, [], {}, ""
    listed = {}
    for prof, st in stats.items():
        rule = st["rule"] or rule
        for name, arm in st["arms"].items():
            evals += arm["evaluations"]
            if prof == "guided":
                # Might be the same cases as random ones.
                pass
            elif arm["listed"]:
                listed[name] = max(listed.get(name, 0), arm["distinct_nontrivial"])
            else:
                distinct += arm["distinct_nontrivial"]
            arms["%s (%s)" % (name, prof)] = {k: arm[k] for k in arm if k not in ("listed", "samples")}
            if prof == profs[0]:
                samples += arm["samples"][:2]
    distinct += sum(listed.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": rule or "stopped early by a violation",
            "samples": samples or [{"violation": v[1]["case"]} for v in violations[:1]],
            "arms": arms, "regression_cases_replayed": replayed,
            "time_budget_hit": any(s["budget_hit"] for s in stats.values()),
            "builds": [p + (" without the hook" if p in without_hook else "") for p in stats], "build_s": round(built - start, 1),
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for prof, case, msg in violations:
        path = save(pid, prof, case, msg)
        print("%s (%s build): %s" % (case["arm"], prof, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if violations:
        return 1
    print("%s: held on %d cases (%d distinct non-trivial), %.0f s" % (pid, evals, distinct, time.time() - start))
    return 0


if __name__ == "__main__":
    sys.exit(main())
