#!/usr/bin/env python3
"""Development aid: try the seeded bugs against the checks, in scratch copies under /tmp/sv.

seeded.py demo [ID...]            demo passes on the unchanged tree, fails with the patch; tests pass with it
seeded.py check [ID[:PROP,..]...] run the property's check (or those given) on a copy of /verif with the patch applied
No check uses this or /verif/seeded.
"""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")
SV = os.environ.get("SV", "/tmp/sv")
REPO, VCOPY = SV + "/repo", SV + "/verif"


def sh(cmd, cwd=None, env=None, timeout=1200):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, env=dict(os.environ, **(env or {})))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:]


def prepare():
    os.makedirs(SV, exist_ok=True)
    rc, out = sh("rsync -a --delete --exclude target /repo/ %s/ && git -C %s checkout -q -- ." % (REPO, REPO))
    if rc:
        sys.exit(out)
    rc, out = sh("mkdir -p %s && rsync -a --delete --exclude target --exclude work --exclude seeded --exclude .git --exclude replays "
                 "--exclude evidence %s/ %s/ && sed -i 's#\"/repo\"#\"%s\"#' %s/harness/Cargo.toml %s/harness32/Cargo.toml" % (VCOPY, VERIF, VCOPY, REPO, VCOPY, VCOPY))
    if rc:
        sys.exit(out)


def apply(i):
    sh("git checkout -q -- .", REPO)
    rc, out = sh("git apply %s/%s/patch.diff" % (SEED, i), REPO)
    if rc:
        print(i, "PATCH DOES NOT APPLY", out)
    return rc == 0


def tests():
    env = {"CARGO_TARGET_DIR": REPO + "/target", "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"}
    sh("rm -rf %s/target/debug/.fingerprint/deflate-*" % REPO)
    bad = []
    for k in ("--lib", "--test '*'", "--doc"):
        rc, out = sh("cargo test --workspace --features gzip --no-fail-fast --offline %s -- --test-threads 8 %s"
                     % (k, "--include-ignored" if k != "--doc" else ""), REPO, env)
        if rc:
            bad.append(k + "\n" + "\n".join(l for l in out.splitlines() if "FAILED" in l or l.startswith("error"))[-800:])
    rc, out = sh("cargo test --workspace --no-run --offline", REPO, env)
    if rc:
        bad.append("build without gzip " + out[-500:])
    return bad


def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    prepare()
    if not ids:
        ids = sorted(os.listdir(SEED))
    for a in ids:
        i, _, props = a.partition(":")
        meta = json.load(open("%s/%s/meta.json" % (SEED, i)))
        if mode == "demo":
            sh("git checkout -q -- .", REPO)
            t = time.time()
            rc0, out0 = sh("bash %s/%s/demo.sh" % (SEED, i), REPO, timeout=300)
            t = time.time() - t
            if not apply(i):
                continue
            rc1, out1 = sh("bash %s/%s/demo.sh" % (SEED, i), REPO, timeout=300)
            bad = tests()
            ok = rc0 == 0 and rc1 not in (0, 124) and not bad
            print("%s %s: demo %d/%d (%.0f s)%s" % ("ok " if ok else "BAD", i, rc0, rc1, t, " TESTS " + "; ".join(bad) if bad else ""))
            if rc0:
                print(out0[-1500:])
            print("    " + (out1.strip().splitlines() or [""])[-1][:200], flush=True)
        else:
            if not apply(i):
                continue
            for p in (props.split(",") if props else [meta["property"]]):
                t = time.time()
                rc, out = sh("python3 tools/check.py %s" % p, VCOPY, {"VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
                v = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s " % p)]
                print("%s %s by %s: rc %d, %.0f s" % ("caught" if rc == 1 and v else "MISSED", i, p, rc, time.time() - t))
                print("    " + "\n    ".join(out.strip().splitlines()[:-1][-2:])[:500], flush=True)
    sh("git checkout -q -- .", REPO)


main()
