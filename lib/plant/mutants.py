#!/usr/bin/env python3
"""mutants.py TABLE [ID...]: apply each small change of the table to a scratch copy, run the tests
of the crate, and the checks named. Table: python file defining M, a list of
(id, "C01 C02", file, old, new) or (id, checks, [(file, old, new), ...]).
Uses the copies $MUT/repo and $MUT/verif (whose harness depends on $MUT/repo)."""
import os, subprocess, sys, time
MUT = os.environ.get("MUT", "/tmp/mut")
REPO, VERIF = MUT + "/repo", MUT + "/verif"


def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for m in g["M"]:
        if len(m) == 5:
            m = (m[0], m[1], [m[2:]])
        mid, checks, edits = m
        if len(sys.argv) > 2 and mid not in sys.argv[2:]:
            continue
        sh("git checkout -q -- .", REPO)
        bad = None
        for f, a, b in edits:
            p = os.path.join(REPO, "src", f)
            s = open(p).read()
            if s.count(a) < 1:
                bad = "no such text in " + f + ": " + a[:40]
                break
            open(p, "w").write(s.replace(a, b, 1))
        if bad:
            print(mid, "SKIP", bad, flush=True)
            continue
        r = sh("CARGO_TARGET_DIR=%s/target cargo test -q --offline 2>&1 | grep -E 'test result|^error|FAILED|failed' " % MUT, REPO)
        if "error" in r.stdout or "FAILED" in r.stdout or "failed;" in r.stdout.replace("0 failed;", ""):
            print(mid, "TESTS", " | ".join(r.stdout.split("\n"))[:200], flush=True)
            continue
        for c in checks.split():
            t = time.time()
            try:
                r = sh("VERIF_SEED=%s VERIF_TIER=quick timeout 900 ./check.py %s" % (os.environ.get("VERIF_SEED", "1"), c), VERIF)
            except Exception as e:
                print(mid, c, e)
                continue
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            print("%s %s %s exit %d, %d s %s" % (mid, c, "caught" if r.returncode == 1 and v else "MISSED", r.returncode, time.time() - t, "" if v else r.stdout[-200:].replace("\n", " | ")), flush=True)
    sh("git checkout -q -- .", REPO)


main()
