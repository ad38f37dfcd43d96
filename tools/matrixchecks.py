"""C10, C11, C12: the matrix library."""
import glob, json, os
from vlib import *
import watch


def histories(c, goal):
    exe, other = c.build_both("native", "cfg-default", ["mat"], "cfg-std,cfg-permstd")
    exe, other = exe["mat"], other and other["mat"]
    c.tlc("GenMatrix", env={"GOAL": goal})
    watch.matrices(c, goal)
    files = sorted(glob.glob(c.work + "/mat_*.json"))
    paths, starts_at = [], {}
    for f in files:
        cmds = json.load(open(f))
        os.remove(f)
        starts = [k for k, x in enumerate(cmds) if x == "reset"]
        c.cov["histories"] = c.cov.get("histories", 0) + len(starts)
        # cut between histories into pieces of some 1500 commands
        cuts, last = [0], 0
        for s in starts:
            if s - last > 1500:
                cuts.append(s)
                last = s
        cuts.append(len(cmds))
        for a, b in zip(cuts, cuts[1:]):
            if a == b:
                continue
            p = "%s/m_%d" % (c.work, len(paths) + 1)
            open(p, "w").write("\n".join(cmds[a:b]) + "\n")
            paths.append(p)
    c.harness_many(exe, sorted(paths, key=lambda p: -os.path.getsize(p)))
    paths += c.again(other, paths)
    n = sum(sum(1 for _ in open(p + ".ndjson")) for p in paths)
    c.log("recorded %d events in %d files" % (n, len(paths)))
    for p in paths[::max(1, len(paths) // 5)]:
        ls = open(p + ".ndjson").read().splitlines()
        c.sample(json.loads(ls[len(ls) // 2]))
    r = c.tlc("TraceMatrix", env={"NFILES": str(len(paths))})
    if not r["ok"]:
        for b in sorted(glob.glob(c.work + "/bad_*.json")):
            d = json.load(open(b))
            cmds = open("%s/m_%d" % (c.work, d["file"])).read().splitlines()[:d["position"]]
            k = max([i for i, x in enumerate(cmds) if x == "reset"] or [0])
            d["history"] = cmds[k:]
            c.violation("matrix step differs: %s after %d commands, expected %s" % (json.dumps(d["event"])[:200], len(d["history"]), str(d["expected"])[:150]), d)
        if not c.violations:
            raise ToolError("TraceMatrix rejected without a record:\n" + r["out"][-2000:])
    elif r["distinct"] != n + len(paths):
        raise ToolError("trace validation consumed %d states, expected %d" % (r["distinct"], n + len(paths)))
    c.cov["traces_validated_against_impl"] += len(paths)
    c.cov["events_validated"] = n


def c10(c):
    histories(c, "C10")


def c11(c):
    histories(c, "C11")


def c12(c):
    c.self_test("LinearSelfTest")
    histories(c, "C12")
