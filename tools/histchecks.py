"""C03: histories and concurrency."""
import glob, json, os
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import hashchecks, watch


def watched(c, defs):
    """second calls that turn a decision of the code about what the first one left"""
    words = {d.split()[1]: " ".join(d.split()[2:]) for d in defs}
    groups, first = [], []
    for n in range(1, 8):
        for call in ("hash", "opt", "unopt", "iopt", "iunopt"):
            for m in sorted({n, n % 7 + 1}):
                pre = call if m == n else call.lstrip("i")
                x = "p%d_1" % m
                groups.append((n, call, "%s %d %s" % (pre, m, words[x])))
                first.append((pre, m, x))
    found = watch.search(c, groups)
    more, hist = [], []
    for g, ((n, call, _), (pre, m, x), ins) in enumerate(zip(groups, first, found)):
        for k, w in enumerate(ins):
            name = "p%d_w%d_%d" % (n, g, k)
            more.append("def %s %s" % (name, " ".join(w)))
            hist += ["reset", "new a %d" % n, "new b %d" % m]
            for obj, what, rate, inp in (("b" if m != n else "a", pre, m, x), ("a", call, n, name)):
                if what == "hash":
                    hist.append("hash %d %s" % (rate, inp))
                elif what[0] == "i":
                    hist.append("call %s %s %s" % (obj, what[1:], inp))
                else:
                    hist += ["new f %d" % rate, "call f %s %s" % (what, inp), "drop f"]
            hist.append("read a")
    return defs + more, hist


@watch.soft(lambda *a: 0)
def interleaved(c, defs):
    """calls of several threads, switched at chosen field operations"""
    if not c.tlc("Interleave")["ok"]:
        raise ToolError("the interleaving machine violates its invariants")
    exe = watch.build(c, "wsched")
    c.tlc("GenSched", env={"PHASE": "ask"})
    ask = sum((json.load(open(c.work + "/ask_%d.json" % n)) for n in range(1, 8)), [])
    steps = [json.loads(l) for l in c.harness(exe, defs + ask)]
    json.dump({"%s%d" % (e["k"], e["n"]): e["steps"] for e in steps}, open(c.work + "/steps.json", "w"))
    c.tlc("GenSched", env={"PHASE": "make"})
    lines = []
    for n in range(1, 8):
        lines += json.load(open(c.work + "/sched_%d.json" % n))
    k = 48
    paths = []
    for i in range(k):
        paths.append("%s/s_%d" % (c.work, i + 1))
        open(paths[-1], "w").write("\n".join(defs + lines[i::k]) + "\n")
    c.harness_many(exe, paths)
    runs = freed = n = 0
    for p in paths:
        for l in open(p + ".ndjson"):
            e = json.loads(l)
            runs, freed, n = runs + e["runs"], freed + e["freed"], n + 1
    c.cov["interleavings_replayed"], c.cov["interleavings_let_go"] = runs, freed
    c.log("replayed %d interleavings (%d let go)" % (runs, freed))
    r = c.tlc("TraceSched", env={"NFILES": str(k)})
    if not r["ok"]:
        for b in sorted(glob.glob(c.work + "/sbad_*.json")):
            d = json.load(open(b))
            d["defs"] = defs
            c.violation("interleaved calls disagree with the same calls alone: %s" % json.dumps(d["event"])[:400], d)
    elif r["distinct"] != n + k:
        raise ToolError("interleavings: TLC consumed %d states, expected %d" % (r["distinct"], n + k))
    c.cov["traces_validated_against_impl"] += k
    return runs


def c03(c):
    exe, other = c.build_both("native", "cfg-default", ["hist"], "cfg-std,cfg-permstd")
    exe, other = exe["hist"], other and other["hist"]
    if not c.tlc("HasherMC")["ok"]:
        raise ToolError("the object machine violates its invariants")
    c.tlc("GenHist")
    defs = json.load(open(c.work + "/hist_pool_00.json"))
    defs, extra = watched(c, defs)
    # results of calls made first thing in a fresh process
    jobs = []
    for d in defs:
        x = d.split()[1]
        n = x[1:].split("_")[0]
        jobs += [("opt/" + x, [d, "new a " + n, "call a opt " + x, "read a"]),
                 ("unopt/" + x, [d, "new a " + n, "call a unopt " + x, "read a"]),
                 ("hash/" + x, [d, "hash %s %s" % (n, x)])]
    jobs += [("digest/%d" % n, ["digest %d" % n]) for n in range(1, 8)]

    def fresh(j):
        return j[0], [json.loads(l) for l in c.harness(exe, j[1], timeout=120)]
    base = {}
    with ThreadPoolExecutor(8) as ex:
        for k, ev in ex.map(fresh, jobs):
            if k.startswith("digest"):
                base[k] = ev[0]["d"]
            elif k.startswith("hash"):
                base[k] = {"out": ev[0]["out"], "st": []}
            else:
                base[k] = {"out": ev[1]["out"], "st": ev[2]["st"]}
    json.dump(base, open(c.work + "/base.json", "w"))
    interleaved(c, [d for d in defs if "_w" not in d.split()[1]])
    if extra:
        json.dump(extra, open(c.work + "/hist_exh_watch.json", "w"))
    files = sorted(glob.glob(c.work + "/hist_*.json"))
    plain, threaded = [], []
    i = 0
    for f in files:
        if "pool" in f:
            continue
        cmds = json.load(open(f))
        if "exh" in f:
            # split between histories
            starts = [k for k, x in enumerate(cmds) if x == "reset"]
            cuts = starts[::max(1, len(starts) // 6)] + [len(cmds)]
            parts = [cmds[a:b] for a, b in zip(cuts, cuts[1:])]
            c.cov["histories_exhaustive"] = c.cov.get("histories_exhaustive", 0) + len(starts)
        else:
            parts = [cmds]
        for p in parts:
            i += 1
            path = "%s/h_%d" % (c.work, i)
            # both builds have half of the rounds
            p = [re.sub(r"( repeat \S+ \S+ \d+ )(\d+)", lambda m: m.group(1) + str((int(m.group(2)) + 1) // 2), x) for x in p]
            open(path, "w").write("\n".join(defs + p) + "\n")
            (threaded if any(x in f for x in ("thr", "rep", "race", "first")) else plain).append(path)
    c.harness_many(exe, plain)
    c.harness_many(exe, threaded, par=1)
    more = c.again(other, plain)
    i += len(more)
    plain += more
    for p in threaded if other else []:
        i += 1
        shutil.copyfile(p, "%s/h_%d" % (c.work, i))
        more.append("%s/h_%d" % (c.work, i))
        c.harness_many(other, more[-1:])
    threaded += [p for p in more if p not in plain]
    for p in threaded:
        for l in open(p + ".ndjson"):
            e = json.loads(l)
            if e["op"] == "repeat":
                c.cov["repeated_calls"] = c.cov.get("repeated_calls", 0) + e["rounds"] * len(e["ins"])
    c.log("recorded %d histories files, %d repeated calls" % (i, c.cov.get("repeated_calls", 0)))
    n = sum(sum(1 for _ in open(p + ".ndjson")) for p in plain + threaded)
    with open(plain[0] + ".ndjson") as f:
        for _, l in zip(range(5), f):
            c.sample(json.loads(l))
    r = c.tlc("TraceHist", env={"NFILES": str(i)})
    if not r["ok"]:
        for b in sorted(glob.glob(c.work + "/bad_*.json")):
            d = json.load(open(b))
            d["history"] = open("%s/h_%d" % (c.work, d["file"])).read().splitlines()[len(defs):][:400]
            c.violation("history step not a step of the object machine: %s" % json.dumps(d["event"])[:300], d)
        if not c.violations:
            raise ToolError("TraceHist rejected without a record:\n" + r["out"][-2000:])
    elif r["distinct"] != n + i:
        raise ToolError("trace validation consumed %d states, expected %d" % (r["distinct"], n + i))
    c.cov["traces_validated_against_impl"] += i
    c.cov["events_validated"] = n
