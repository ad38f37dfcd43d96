"""C13: instances over arbitrary parameters."""
import glob, json, os
from vlib import *
import watch


def c13(c):
    exe, other = c.build_both("r1cs", "", ["generic"], "parallel")
    exe, other = exe["generic"], other and other["generic"]
    c.tlc("GenGeneric")
    files = sorted(glob.glob(c.work + "/gen_*.json"))
    for k, cmds in enumerate(watch.generics(c)):
        files.append("%s/gen_watch_%d.json" % (c.work, k))
        json.dump(cmds, open(files[-1], "w"))
    paths, n, all_cmds = [], 0, []
    for f in files:
        cmds = json.load(open(f))
        os.remove(f)
        if "watch" not in os.path.basename(f) and not any(x.startswith("keep") for x in cmds):
            all_cmds.append(cmds)
        p = "%s/g_%d" % (c.work, len(paths) + 1)
        open(p, "w").write("\n".join(cmds) + "\n")
        paths.append(p)
        n += len(cmds)
        c.cov["parameter_sets"] = c.cov.get("parameter_sets", 0) + sum(1 for x in cmds if x.startswith("set"))
        c.cov["histories_of_live_instances"] = c.cov.get("histories_of_live_instances", 0) + any(x.startswith("keep") for x in cmds)
        c.cov["circuits"] = c.cov.get("circuits", 0) + sum(1 for x in cmds if x.startswith("circ"))
    c.harness_many(exe, sorted(paths, key=lambda p: -os.path.getsize(p)))
    more = c.again(other, paths)
    paths += more
    n += sum(sum(1 for _ in open(p)) for p in more)
    c.log("recorded %d events over %d parameter sets" % (n, c.cov["parameter_sets"]))
    for p in paths[::max(1, len(paths) // 4)]:
        c.sample(json.loads(open(p + ".ndjson").read().splitlines()[1]))
    watch.generic_programs(c, all_cmds)
    r = c.tlc("TraceGeneric", env={"NFILES": str(len(paths))})
    if not r["ok"]:
        for b in sorted(glob.glob(c.work + "/bad_*.json")):
            d = json.load(open(b))
            cmds = open("%s/g_%d" % (c.work, d["file"])).read().splitlines()[:d["position"]]
            d["parameters"] = [x for x in cmds if x.startswith("set")][-1]
            c.violation("instance differs from its parameters: %s with %s" % (cmds[-1][:120], d["parameters"][:40]), d)
        if not c.violations:
            raise ToolError("TraceGeneric rejected without a record:\n" + r["out"][-2000:])
    elif r["distinct"] != n + len(paths):
        raise ToolError("trace validation consumed %d states, expected %d" % (r["distinct"], n + len(paths)))
    c.cov["traces_validated_against_impl"] += len(paths)
    c.cov["events_validated"] = n
