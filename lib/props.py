"""What is run for each property."""

import copy
import json
import os

from core import parallel

CHECKS = {}


def check(pid):
    def reg(f):
        CHECKS[pid] = f
        return f
    return reg


def cat(dst, *srcs):
    with open(dst, "w") as o:
        for s in srcs:
            with open(s) as f:
                o.write(f.read())


def corrupt_obj(c):
    """Change one recorded byte of a field of an object the library accepted"""
    if c["o1"]["r"] != "ok" or c["src"] != "printed":
        return None
    c = copy.deepcopy(c)
    o = c["o1"]
    if o["t"] == "commit":
        f = [("tree", 39), ("msg", 0)][len(c["body"]) % 2]
        if f[1] < len(o[f[0]]):
            o[f[0]][f[1]] ^= 1
        else:
            o[f[0]].append(65)
    elif o["t"] == "tag":
        o["object"][0] ^= 1
    elif o["t"] == "tree":
        o["n"] += 1
    else:
        o["data"].append(0)
    return c


def formats(c, gens, what, n):
    files = []
    jobs = []
    for g in gens:
        f = c.path("gen-%s.ndjson" % g)
        files.append(f)
        jobs.append(lambda g=g, f=f: c.gen("GenObj", f, env={"GEN": g}))
    parallel(*jobs)
    cases = c.path("cases.ndjson")
    cat(cases, *files)
    obs = c.path("obs.ndjson")
    args = {"in": cases, "gen": what, "n": n, "big": 0 if gens == ["ident"] else 12 if c.quick else 200,
            "huge": 6 if c.quick else 60}
    if c.vh("formats", out=obs, **args):
        c.judge("CasesObj", obs, corrupt=corrupt_obj)


@check("C10")
def c10(c):
    formats(c, ["commit"], "commit", 6000 if c.quick else 60000)


@check("C11")
def c11(c):
    formats(c, ["tree"], "tree", 6000 if c.quick else 60000)


@check("C12")
def c12(c):
    formats(c, ["tag", "blob"], "tag,tag,tag,blob", 6000 if c.quick else 60000)


@check("C13")
def c13(c):
    formats(c, ["ident"], "ident", 9000 if c.quick else 80000)


def corrupt_ref(c):
    """Another id, another name"""
    if c["src"] != "printed" or c["obs"][0]["r"] != "ok":
        return None
    c = copy.deepcopy(c)
    o = c["obs"][-1]
    if o["t"] == "direct":
        o["id"][39] ^= 1
    else:
        o["name"] = o["name"][:-1]
    return c


@check("C16")
def c16(c):
    f = c.path("gen.ndjson")
    c.gen("GenRef", f)
    obs = c.path("obs.ndjson")
    args = {"in": f, "n": 9000 if c.quick else 120000, "huge": 25 if c.quick else 400}
    if c.vh("reffile", out=obs, **args):
        c.judge("CasesRef", obs, corrupt=corrupt_ref)


def corrupt_ids(c):
    c = copy.deepcopy(c)
    if c["k"] == "search":
        c["obs"]["pos"] += 1
    elif c["k"] == "cmp":
        c["obs"]["sa"] = 1 - abs(c["obs"]["sa"])
    else:
        c["obs"]["full"][0] = [] if c["obs"]["full"][0] else [[48]]
    return c


@check("C17")
def c17(c):
    f = c.path("gen.ndjson")
    c.gen("GenIds", f)
    obs = c.path("obs.ndjson")
    args = {"in": f, "n": 9000 if c.quick else 120000, "huge": 25 if c.quick else 400}
    if c.vh("ids", out=obs, **args):
        c.judge("CasesIds", obs, corrupt=corrupt_ids)


def corrupt_pack(c):
    """One byte of what was read"""
    c = copy.deepcopy(c)
    if c["k"] == "rope":
        if c["obs"][0]["r"] != "ok":
            return None
        c["obs"][0]["sha"] = "0" * 40
        return c
    if c["k"] == "wide":
        q = next(q for q in c["q"] if q["in"])
        q["obs"]["body"][-1] ^= 1
        return c
    if c["k"] == "chain":
        c["q"][0]["obs"]["data"][-1] ^= 1
        return c
    for q in c["q"]:
        for o in q["raw"]:
            if o["r"] == "raw" and o["body"]:
                o["body"][-1] ^= 1
                return c
    return None


def packs(c, gens, **args):
    files = [c.path("gen-%d.ndjson" % i) for i in range(len(gens))]
    parallel(*[lambda f=f, g=g: c.gen(g[0], f, cfg=g[1], env={"GEN": g[2]} if g[2] else None) for f, g in zip(files, gens)])
    cases = c.path("cases.ndjson")
    cat(cases, *files)
    jobs = []
    # the generated ones and each kind of random ones in a process of its own
    parts = [("in", cases)] if files else []
    for k, n in args.items():
        parts.append((k, n))
    outs = [c.path("obs-%s.ndjson" % k) for k, _ in parts]
    oks = parallel(*[lambda k=k, v=v, o=o: c.vh("packs", out=o, work=c.path("scratch-" + k), **{k: v})
                     for (k, v), o in zip(parts, outs)])
    if all(oks):
        obs = c.path("obs.ndjson")
        cat(obs, *outs)
        c.judge("CasesPack", obs, corrupt=corrupt_pack)


@check("C05")
def c05(c):
    q = c.quick
    packs(c, [("GenDelta", None, "good"), ("GenPack", None if q else "GenPack4.cfg", None)],
          random=500 if q else 8000, rope=80 if q else 800, chain=5 if q else 60, giant=1 if q else 20, sparse=12 if q else 200,
          made=60 if q else 1500)


@check("C06")
def c06(c):
    q = c.quick
    c.mutant("GenIndexSkew", "GenIndex", "GenIndexSkew.cfg", env={"OUT": c.path("none")})
    packs(c, [("GenIndex", None, None)], index=250 if q else 4000, wide=2 if q else 40, many=6 if q else 100, sparse=12 if q else 200,
          made=40 if q else 800)


@check("C08")
def c08(c):
    q = c.quick
    packs(c, [("GenDelta", None, "bad")], damaged=1200 if q else 20000, truncated=1 if q else 12)


def corrupt_hist(c):
    """A stored object which is said to be absent, unreadable or damaged"""
    c = copy.deepcopy(c)
    p = [e for e in c["ev"] if e["e"] == "probe"]
    if not p:
        return None
    e = p[-1]
    if len(c["ev"]) % 2 == 0 and e["r"] == "complete":
        c["ev"] += [{"e": "call", "t": 1, "op": "read", "o": e["o"], "fresh": True},
                    {"e": "ret", "t": 1, "r": ["nf", "err", "wrong"][len(c["ev"]) // 2 % 3], "touched": True}]
    else:
        e["r"] = "bad" if len(c["ev"]) % 3 == 0 else "absent" if e["r"] == "complete" else "complete"
    return c


def recorded(c, cmd, runs, key, module, **kw):
    """Run harness processes, each with its arguments, and let TLC judge what they recorded."""
    outs = [c.path("trace-%s-%d.ndjson" % (key, i)) for i in range(len(runs))]
    oks = parallel(*[lambda i=i, a=a, o=o: c.vh(cmd, out=o, work=c.path("scratch-%s-%d" % (key, i)), stats=o + ".stats", **a)
                     for i, (a, o) in enumerate(zip(runs, outs))])
    for o in outs:
        if os.path.exists(o + ".stats"):
            with open(o + ".stats") as f:
                c.classes(key, json.load(f))
    if all(oks):
        obs = c.path("traces-%s.ndjson" % key)
        cat(obs, *outs)
        c.judge(module, obs, **kw)


def odb(c, runs, inputs=()):
    """Histories: recorded from the harness, judged by OdbTrace. runs: arguments of harness processes."""
    recorded(c, "odb", list(runs) + [{"in": f} for f in inputs], "histories_run", "OdbTrace", corrupt=corrupt_hist, trace=True)


def split(n, **a):
    return [dict(a, part=i, parts=n) for i in range(n)]


@check("C01")
def c01(c):
    q = c.quick
    h = c.path("hist.ndjson")
    parallel(lambda: c.gen("GenHist", h, "GenHist4.cfg" if q else "GenHist5.cfg"),
             lambda: c.model("ObjectStore", "ObjectStore", workers=4),
             lambda: c.mutant("folder not made again", "OdbImpl", "OdbWriteNoRemake.cfg"))
    n = 4
    parts = shards(h, n)
    odb(c, split(4, random=250 if q else 6000, life=5 if q else 200) + split(1, folder=1 if q else 20, commands=4 if q else 100), parts)


def shards(f, n):
    lines = open(f).read().splitlines(True)
    res = []
    for i in range(n):
        p = "%s.part%d" % (f, i)
        with open(p, "w") as o:
            o.writelines(lines[i::n])
        res.append(p)
    return res


@check("C02")
def c02(c):
    q = c.quick
    parallel(lambda: c.model("OdbCrash", "OdbImpl", "OdbCrash.cfg" if q else "OdbWrite.cfg", workers=4),
             lambda: c.mutant("write in place", "OdbImpl", "OdbWriteInPlace.cfg"),
             lambda: c.mutant("shared temporary file", "OdbImpl", "OdbWriteSharedTemp.cfg"))
    odb(c, split(2, crashes=1 if q else 12, folder=1 if q else 20) + split(4, failures=1 if q else 9, combined=150 if q else 4000, died=1))


@check("C03")
def c03(c):
    q = c.quick
    s = c.path("sched.ndjson")
    parallel(lambda: c.gen("GenOdb", s, simulate="num=%d" % (1000 if q else 20000), extra=("-depth", "100")),
             lambda: c.model("OdbWrite", "OdbImpl", "OdbCrash.cfg" if q else "OdbWrite.cfg", workers=4),
             lambda: c.mutant("write in place", "OdbImpl", "OdbWriteInPlace.cfg"),
             lambda: c.mutant("shared temporary file", "OdbImpl", "OdbWriteSharedTemp.cfg"))
    odb(c, split(6, pairs=12 if q else 400) + split(2, processes=60 if q else 2000), shards(s, 4))


@check("C04")
def c04(c):
    q = c.quick
    s = c.path("sched.ndjson")
    parallel(lambda: c.gen("GenOdb", s, "GenOdbMove.cfg", simulate="num=%d" % (1500 if q else 30000), extra=("-depth", "100")),
             lambda: c.model("OdbMove", "OdbImpl", "OdbMove.cfg", workers=4),
             lambda: c.mutant("one search", "OdbImpl", "OdbMovePass1.cfg"),
             lambda: c.mutant("no forced refresh", "OdbImpl", "OdbMoveNoForce.cfg"),
             lambda: c.mutant("missing packs are errors", "OdbImpl", "OdbMoveNoSkip.cfg"))
    odb(c, split(6, moves=60 if q else 2000, anyhow=120 if q else 6000) + split(2, commands=8 if q else 400) + split(2, life=30 if q else 1000), shards(s, 4))


def corrupt_same(c):
    """A second result for the same object"""
    c = copy.deepcopy(c)
    q = c["q"][len(c["q"]) // 2]
    if not q["obs"]:
        return None
    q["obs"].append({"r": "nf"} if q["obs"][0]["r"] != "nf" else {"r": "err"})
    return c


@check("C07")
def c07(c):
    q = c.quick
    s = c.path("sched.ndjson")
    jobs = [lambda: c.gen("GenPackRead", s, simulate="num=%d" % (500 if q else 12000), extra=("-depth", "200")),
            lambda: c.model("PackRead", "PackRead", "PackRead.cfg" if q else "PackReadDeep.cfg", workers=4),
            lambda: c.model("PackReadLive", "PackRead", "PackReadLive.cfg")]
    for m, n in (("NoLock", "lock released between moving the cursor and reading"), ("Key", "cached under the base"),
                 ("Delta", "delta cached instead of the result"), ("Stale", "buffer kept when the cursor moves"),
                 ("Poison", "damaged entries cached")):
        jobs.append(lambda m=m, n=n: c.mutant(n, "PackRead", "PackRead%s.cfg" % m))
    parallel(*jobs)
    runs = [{"in": p} for p in shards(s, 3)]
    runs += split(2, history=150 if q else 4000) + split(2, preempted=8 if q else 250) + [{"threads": 60 if q else 2000}]
    recorded(c, "reads", runs, "reads", "CasesPack", corrupt=corrupt_same)


def corrupt_refs(c):
    """Another object, a name too much or too few, an error out of nothing"""
    c = copy.deepcopy(c)
    if c["src"] in ("threads", "git-threads") or any(e["e"] == "fault" for e in c["ev"]):
        return None
    rets = [e["r"] for e in c["ev"] if e["e"] == "ret"]
    lists = [r for r in rets if r["r"] == "names" and r["names"]]
    objs = [r for r in rets if r["r"] == "obj"]
    if lists and (not objs or len(c["ev"]) % 2):
        l = lists[-1]["names"]
        if len(c["ev"]) % 3 == 0:
            l.append(l[0])
        elif len(c["ev"]) % 3 == 1:
            l.append(l[0] + [120, 120, 121])
        else:
            l.pop()
            if any(e["e"] == "set" for e in c["ev"]):
                return None
    elif objs:
        objs[-1]["o"] = 0 if len(c["ev"]) % 3 == 0 else objs[-1]["o"] % 6 + 1
        if any(e["e"] in ("set", "obj") for e in c["ev"]):
            return None
    else:
        return None
    return c


def refs(c, runs):
    recorded(c, "refs", runs, "reference_operations", "RefsTrace", corrupt=corrupt_refs, trace=True)


@check("C14")
def c14(c):
    q = c.quick
    g, s = c.path("graphs.ndjson"), c.path("steps.ndjson")
    parallel(lambda: c.gen("GenRefs", g),
             lambda: c.gen("GenRefSteps", s, simulate="num=%d" % (2500 if q else 60000), extra=("-depth", "60")),
             lambda: c.model("RefsImpl", "RefsImpl", "RefsImplSmall.cfg" if q else "RefsImpl.cfg", workers=4),
             lambda: c.model("RefsImplStatic", "RefsImpl", "RefsImplStatic.cfg"),
             lambda: c.mutant("three hops", "RefsImpl", "RefsImplShort.cfg"),
             lambda: c.mutant("no end", "RefsImpl", "RefsImplEndless.cfg"),
             lambda: c.mutant("remembered contents", "RefsImpl", "RefsImplMemo.cfg"))
    refs(c, [{"in": g}] + [{"in": p} for p in shards(s, 3)] + split(2, static=500 if q else 15000, git=21 if q else 600)
         + split(2, updates=600 if q else 20000) + [{"threads": 300 if q else 8000}])


@check("C15")
def c15(c):
    q = c.quick
    parallel(lambda: c.model("RefsList", "MCRefsList", "RefsList.cfg" if q else "RefsListDeep.cfg", workers=4),
             *[lambda m=m, n=n: c.mutant(n, "MCRefsList", "RefsList%s.cfg" % m)
               for m, n in (("Flat", "folders not entered"), ("Gone", "missing folders are errors"),
                            ("Locks", "lock files listed"), ("Skip", "unreadable folders left out"))])
    refs(c, split(3, static=900 if q else 20000, git=24 if q else 600, wide=1 if q else 20) + split(2, updates=900 if q else 20000)
         + split(2, faults=300 if q else 9000) + [{"threads": 400 if q else 8000}])


def corrupt_open(c):
    if c["obs"]["r"] != "ok" or c["fault"]:
        return None
    c = copy.deepcopy(c)
    if c["abs"]:
        c["obs"]["wrote"] = [1]
    else:
        c["obs"] = {"r": "nf"}
    return c


def corrupt_effects(c):
    c = copy.deepcopy(c)
    e = c["ev"][-1]
    if e["op"] == "read":
        e["new"].append({"p": "a/.git/index", "d": "100644 other"})
    elif len(c["ev"]) % 2:
        e["new"].append({"p": "tmp/left", "d": "100644 other"})
    else:
        e["gone"].append(c["first"][0]["p"])
    return c


@check("C20")
def c20(c):
    q = c.quick
    f = c.path("gen.ndjson")
    c.gen("GenOpen", f, workers=4)
    parts = shards(f, 4)
    parallel(lambda: recorded(c, "opens", [{"in": p, "faults": 8 if q else 1} for p in parts], "openings", "CasesOpen", corrupt=corrupt_open),
             lambda: recorded(c, "opens", split(4, effects=250 if q else 8000), "effects", "EffectsTrace", corrupt=corrupt_effects, trace=True))


def corrupt_inside(c):
    """A file outside which was opened, or read"""
    c = copy.deepcopy(c)
    out = c["git"][:-2] + ["x"]
    if len(c["opened"]) % 2:
        c["opened"].append(c["git"] + ["refs", "..", "..", "..", "x"])
    else:
        c["obs"].append({"r": "ok", "file": out})
    return c


@check("C21")
def c21(c):
    q = c.quick
    f = c.path("gen.ndjson")
    c.gen("GenInside", f, None if q else "GenInside4.cfg", workers=4)
    recorded(c, "inside", [{"in": p} for p in shards(f, 3)] + split(2, objects=100 if q else 4000), "lookups", "CasesInside", corrupt=corrupt_inside)


def corrupt_sys(c):
    c = copy.deepcopy(c)
    if c["how"] == "failing":
        c["obs"].append({"r": "ok", "d": "something else"} if c["is"] == "nf" else {"r": "nf", "d": ""})
        return c if c["is"] in ("nf", "ok") else None
    c["obs"].append({"r": "err", "d": ""} if c["full"]["r"] == "ok" else {"r": "ok", "d": "0"})
    return c


@check("C18")
def c18(c):
    q = c.quick
    f = c.path("gen.ndjson")
    c.gen("GenChunks", f, None if q else "GenChunks4.cfg", workers=4)
    parallel(lambda: c.model("Buffer", "Buffer", "Buffer.cfg" if q else "BufferDeep.cfg", workers=2),
             lambda: c.mutant("a single read", "Buffer", "BufferOnce.cfg"),
             lambda: c.mutant("interruptions are failures", "Buffer", "BufferInterrupt.cfg"),
             lambda: c.mutant("excess is not looked at", "Buffer", "BufferExcess.cfg"),
             lambda: recorded(c, "sys", [{"in": p} for p in shards(f, 3)] + split(3, cuts=3 if q else 60, large=3 if q else 60, most=60 if q else 600),
                              "chunks", "CasesSys", corrupt=corrupt_sys),
             lambda: recorded(c, "refs", split(1, segments=150 if q else 6000), "references", "RefsTrace", trace=True))


@check("C19")
def c19(c):
    q = c.quick
    f = c.path("gen.ndjson")
    c.gen("GenFaults", f, workers=4)
    parallel(lambda: c.model("Faults", "Faults", "Faults.cfg", workers=2),
             *[(lambda b: lambda: c.mutant(b, "Faults", "Faults%s.cfg" % b))(b) for b in ("List", "Skip", "Register", "Loose")],
             lambda: recorded(c, "sys", [dict(a, **{"in": f}) for a in split(6, of=6)], "failing", "CasesSys", corrupt=corrupt_sys),
             lambda: recorded(c, "refs", split(1, failing=6 if q else 300), "references", "RefsTrace", trace=True))


def corrupt_total(c):
    c = copy.deepcopy(c)
    if len(json.dumps(c)) % 2:
        c["peak"] = 8 * c["data"] + 4097
    else:
        c["rs"].append({"op": "parse", "r": "panic"})
    return c


@check("C09")
def c09(c):
    q = c.quick
    g, f = c.path("graphs.ndjson"), c.path("fields.ndjson")
    parallel(lambda: c.gen("Hostile", g, workers=2),
             lambda: c.gen("GenFields", f, "GenFields2.cfg", workers=2),
             lambda: c.mutant("loops are not noticed", "Hostile", "HostileLoops.cfg"),
             lambda: c.mutant("lengths are trusted", "Hostile", "HostileTrust.cfg"))
    recorded(c, "total", [{"in": p, "every": 3 if q else 1} for p in shards(g, 2)]
             + [{"in": p, "every": 14 if q else 1} for p in shards(f, 4)]
             + split(4, deep=20000 if q else 100000, fuzz=2500 if q else 150000), "repositories", "CasesTotal", corrupt=corrupt_total)


def corrupt_resources(c):
    c = copy.deepcopy(c)
    x = c["lives"][-1]
    k = len(json.dumps(c)) % 4
    if k == 0:
        x["rounds"][-1]["mem"] += 200000
    elif k == 1:
        x["rounds"][-1]["steps"][-1][0] += 16
    elif k == 2:
        x["files"] = 1
    else:
        c["after"][-1] += 200000
    return c


@check("C22")
def c22(c):
    q = c.quick
    f, g = c.path("short.ndjson"), c.path("long.ndjson")
    parallel(lambda: c.gen("GenResources", f, "GenResources.cfg" if q else "GenResources3.cfg"),
             lambda: c.gen("GenResources", g, "GenResourcesLong.cfg", simulate="num=%d" % (9 if q else 250), extra=("-depth", "8")),
             lambda: c.model("Resources", "Resources", workers=2),
             *[lambda b=b, n=n: c.mutant(n, "Resources", "Resources%s.cfg" % b)
               for b, n in (("Again", "packs opened again"), ("Keep", "indexes of packs which can't be opened stay open"),
                            ("Copies", "objects kept for each read"), ("Failed", "files stay open after failures"),
                            ("Temporary", "temporary files stay open"), ("Forgotten", "packs outlive the handle"))])
    recorded(c, "leaks", [{"in": p} for p in shards(f, 4) + shards(g, 2)], "programs", "CasesResources", corrupt=corrupt_resources)


def corrupt_reach(c):
    c = copy.deepcopy(c)
    rets = [e for e in c["ev"] if e["e"] == "ret" and (e.get("tree") or "l" in e)]
    if not rets:
        return None
    e = rets[len(json.dumps(c)) % len(rets)]
    if "l" in e:
        e["l"].append(0)
    elif "items" in e:
        e["items"].append(e["tree"])
    else:
        e["par"].append(0)
    return c


@check("C23")
def c23(c):
    q = c.quick
    parallel(lambda: c.model("Reach", "Reach", "Reach.cfg" if q else "ReachDeep.cfg", workers=4 if q else 8),
             *[lambda b=b, n=n: c.mutant(n, "Reach", "Reach%s.cfg" % b)
               for b, n in (("Early", "references set before their objects are stored"), ("Memo", "values of references remembered"),
                            ("Absent", "absence remembered"), ("Once", "one search only"))])
    recorded(c, "reach", split(4, steps=1200 if q else 40000, real=40 if q else 1500), "histories_run", "ReachTrace",
             corrupt=corrupt_reach, trace=True)
