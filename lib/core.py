"""Runs TLC and the harness for one property and keeps the books."""

import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
VH = os.path.join(BUILD, "debug", "vh")
REPLAY = os.path.join(ROOT, ".replay")
KNOWN = os.path.join(ROOT, "known_findings.txt")
CLASSPATH = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    pass


class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.quick = tier != "thorough"
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.phases = {}
        self.nrun = 0
        self.counter = itertools.count()

    # ---- books ----

    def count(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def classes(self, key, d):
        c = self.cov.setdefault(key, {})
        for k, v in d.items():
            c[k] = c.get(k, 0) + v

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violation(self, what, data):
        """data is written to the replay file; `what` is one line for people"""
        self.violations.append((what, data))

    def log(self, msg):
        print("[%s %.1fs] %s" % (self.id, time.time() - self.t0, msg), flush=True)

    def path(self, name):
        return os.path.join(self.work, name)

    # ---- build ----

    def build(self):
        env = dict(os.environ)
        env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=BUILD, RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
                   RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--locked",
                            "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
        self.log("built")

    # ---- harness ----

    def vh(self, cmd, timeout=None, **kw):
        """Run a harness command. Dying in the code under test is an observation."""
        args = [VH, cmd]
        nrun = next(self.counter)
        cur = self.path("current-%s-%d.json" % (cmd, nrun))
        kw.setdefault("seed", self.seed)
        kw.setdefault("work", self.path("scratch"))
        for k, v in kw.items():
            args += ["--" + k, str(v)]
        env = dict(os.environ, VH_CURRENT=cur, GIT_CONFIG_NOSYSTEM="1")
        # Many times what it takes: then a call of the library does not come back.
        timeout = timeout or (400 if self.quick else 5400)
        try:
            r = subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            r = subprocess.CompletedProcess(args, 43, b"", e.stderr or b"")
        err = r.stderr.decode("utf8", "replace")
        if r.returncode == 0:
            return True
        died = {-6: "aborted", -11: "crashed (SIGSEGV)", -7: "crashed (SIGBUS)", -4: "crashed (SIGILL)",
                43: "did not return"}.get(r.returncode)
        if died:
            case = None
            if os.path.exists(cur):
                with open(cur) as f:
                    case = f.read()
            self.violation("the library %s" % died, {"command": args[1:], "case": case, "stderr": err[-3000:]})
            return False
        raise ToolError("harness %s failed (%s): %s" % (cmd, r.returncode, err[-3000:]))

    # ---- TLC ----

    def tlc(self, module, cfg=None, env=None, workers=1, extra=(), timeout=800, heap="2g", expect_ok=True, simulate=None):
        nrun = next(self.counter)
        meta = self.path("tlc-%s-%d" % (module, nrun))
        os.makedirs(meta, exist_ok=True)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Djava.io.tmpdir=" + meta, "-cp", CLASSPATH, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-seed", str(self.seed), "-fp", "0"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += ["-config", cfg or (module + ".cfg"), *extra, module + ".tla"]
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace(
            "states generated ", "states generated, "))
        gen = dist = 0
        if m:
            gen, dist = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"([\d,]+) states checked", out) or re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                gen = dist = int(m[-1].replace(",", ""))
        ok = r.returncode == 0
        if expect_ok and not ok:
            raise ToolError("TLC failed on %s (%s):\n%s" % (module, r.returncode, tail(out)))
        return Tlc(ok, out, gen, dist, r.returncode)

    def model(self, name, *a, **kw):
        """Check a specification exhaustively; it has to hold."""
        t = self.tlc(*a, **kw)
        self.count("states", t.distinct)
        self.count("transitions", t.generated)
        self.cov.setdefault("models", {})[name] = {"states": t.distinct, "generated": t.generated}
        self.log("model %s: %d states" % (name, t.distinct))
        return t

    def mutant(self, name, *a, **kw):
        """A deliberately wrong specification: TLC has to find the violation."""
        t = self.tlc(*a, expect_ok=False, **kw)
        if t.code != 12 and t.code != 13:
            raise ToolError("the wrong model %s is not refuted (%s):\n%s" % (name, t.code, tail(t.out)))
        self.cov.setdefault("refuted_mutants", []).append(name)
        return t

    def judge(self, module, cases, key=None, shards=None, corrupt=None, env=None, trace=False, cfg=None):
        """Let TLC judge recorded cases (one per line) and return the ones not allowed.

        With trace, a case is a history: it is allowed if TLC finds a behaviour which explains it to the end."""
        lines = open(cases).read().splitlines()
        if not lines:
            raise ToolError("no cases for %s" % module)
        # Not too many at once: TLC keeps all the cases of a run in memory
        n = shards or max(1, min(JOBS, len(lines) // 60), -(-len(lines) // 2500))
        parts = [list(range(i, len(lines), n)) for i in range(n)]
        jobs = []
        for i, idx in enumerate(parts):
            f = cases + ".%d" % i
            with open(f, "w") as o:
                o.write("\n".join(lines[k] for k in idx) + "\n")
            jobs.append((idx, f, False))
        if corrupt:
            bad = []
            for l in lines[:4000]:
                try:
                    c = corrupt(json.loads(l))
                except (KeyError, IndexError, TypeError, StopIteration):
                    c = None  # not what this was made for: the judge will say what it is
                if c is not None:
                    bad.append(c)
            bad = bad[:8]
            if bad:
                f = cases + ".corrupt"
                with open(f, "w") as o:
                    for c in bad:
                        o.write(json.dumps(c) + "\n")
                jobs.append((list(range(len(bad))), f, True))

        def run(j):
            return self.tlc(module, env=dict(env or {}, CASES=j[1]), cfg=cfg, expect_ok=False,
                            timeout=800 if self.quick else 3000)

        def checked(t):
            return [int(x) for x in re.findall(r'"CHECKED (\d+)"', t.out)] if t.ok else []

        def split(idx, f, t):
            """TLC could not evaluate some case: narrow it down to the cases"""
            if len(idx) == 1:
                again = run((idx, f))
                if checked(again) == [1]:
                    return [(idx, again)]
                if len(strange) >= 3 or not re.search(r"Attempted to|was not in the domain|Evaluating|evaluation", again.out):
                    raise ToolError("%s can't judge a case:\n%s" % (module, tail(again.out)))
                strange.append(idx[0])
                return []
            res = []
            for k, half in enumerate((idx[: len(idx) // 2], idx[len(idx) // 2:])):
                g = "%s.%d" % (f, k)
                with open(g, "w") as o:
                    o.write("\n".join(lines[x] for x in half) + "\n")
                t = run((half, g))
                res += [(half, t)] if checked(t) == [len(half)] else split(half, g, t)
                if strange:
                    break  # one is enough
            return res

        out = []
        strange = []
        missed = None
        with ThreadPoolExecutor(JOBS) as ex:
            done = list(zip(jobs, ex.map(run, jobs)))
        for (idx, f, is_bad), t in done:
            parts = [(idx, t)]
            if checked(t) != [len(idx)]:
                if is_bad:
                    raise ToolError("%s checked %s of %d cases:\n%s" % (module, checked(t), len(idx), tail(t.out)))
                parts = split(idx, f, t) if not strange else []
            for idx, t in parts:
                if trace:
                    oks = {idx[int(x) - 1]: c for x, c in re.findall(r'"OK (\d+) ([^"]*)"', t.out)}
                    bads = sorted(set(idx) - set(oks))
                else:
                    bads = sorted({idx[int(x) - 1] for x in re.findall(r'"BAD (\d+)"', t.out)})
                if is_bad:
                    if len(bads) != len(idx):
                        missed = [json.loads(open(f).read().splitlines()[k]) for k in range(len(idx)) if k not in bads]
                    self.count("corrupted_recordings_rejected", len(bads))
                    continue
                self.count("states", t.distinct)
                self.count("transitions", t.generated)
                self.count("traces_validated_against_impl", len(idx))
                cl = {}
                for c in oks.values() if trace else re.findall(r'"CLASS ([^"]*)"', t.out):
                    cl[c] = cl.get(c, 0) + 1
                self.classes(key or module, cl)
                out += bads
        for k in strange:
            self.violation("%s knows nothing like what was observed" % module, {"module": module, "case": json.loads(lines[k])})
        out.sort()
        for k in (0, len(lines) // 2):
            self.sample({"module": module, "case": shorten(json.loads(lines[k]))})
        for k in out[:20]:
            self.violation("%s does not allow what was observed" % module, {"module": module, "case": json.loads(lines[k])})
        if missed and not out and not strange:
            raise ToolError("%s accepted corrupted recordings: %s" % (module, json.dumps(missed)[:1500]))
        self.log("%s judged %d cases, %d not allowed" % (module, len(lines), len(out)))
        return [json.loads(lines[k]) for k in out]

    def gen(self, module, outfile, cfg=None, env=None, **kw):
        """Let TLC write cases to outfile (checking the specification on the way)."""
        if os.path.exists(outfile):
            os.remove(outfile)
        t = self.model("%s%s" % (module, ":" + env["GEN"] if env and "GEN" in env else ""), module, cfg,
                       env=dict(env or {}, OUT=outfile), **kw)
        n = sum(1 for _ in open(outfile)) if os.path.exists(outfile) else 0
        if n == 0:
            raise ToolError("%s wrote no cases:\n%s" % (module, tail(t.out)))
        self.count("generated_by_tlc", n)
        return n

    # ---- the end ----

    def finish(self):
        known = load_known(self.id)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        rest = []
        for what, data in self.violations:
            text = json.dumps(data, sort_keys=True)
            if any(k["match"] in text for k in known):
                continue
            rest.append((what, data))
        self.write_evidence(len(rest))
        if rest:
            d = os.path.join(REPLAY, self.id)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            for i, (what, data) in enumerate(rest[:5]):
                p = os.path.join(d, "%d.json" % i)
                with open(p, "w") as f:
                    json.dump({"property": self.id, "what": what, "seed": self.seed, "tier": self.tier, "data": data}, f)
                print("VIOLATION property=%s replay=%s" % (self.id, p))
                print("  " + what + ": " + json.dumps(shorten(data))[:600])
            return 1
        print("OK property=%s %.1fs" % (self.id, time.time() - self.t0))
        return 0

    def write_evidence(self, n):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": n}
        with open(os.path.join(ROOT, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


class Tlc:
    def __init__(self, ok, out, generated, distinct, code):
        self.ok, self.out, self.generated, self.distinct, self.code = ok, out, generated, distinct, code


def tail(s, n=3000):
    return "\n".join(l for l in s.splitlines() if not l.startswith(("Semantic", "Parsing", '"CLASS')))[-n:]


def shorten(v, n=64):
    """For people: byte lists as text, long ones cut"""
    if isinstance(v, dict):
        return {k: shorten(x, n) for k, x in v.items()}
    if isinstance(v, list):
        if v and all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 256 for x in v):
            s = bytes(v[:n]).decode("latin1")
            return repr(s)[1:-1] + ("...(%d)" % len(v) if len(v) > n else "")
        return [shorten(x, n) for x in v[:24]]
    if isinstance(v, str) and len(v) > 400:
        return v[:400] + "..."
    return v


def load_known(pid):
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                res.append({"match": m.group(2), "what": m.group(3)})
    return res


def parallel(*fs):
    with ThreadPoolExecutor(len(fs)) as ex:
        return [f.result() for f in [ex.submit(f) for f in fs]]
