"""C01, C02: native hashing against the specification."""
import glob, json, os
from vlib import *
import watch

RATES = range(1, 8)


def dump_params(c, exe, sub="params", which="const"):
    d = os.path.join(c.work, sub)
    os.makedirs(d, exist_ok=True)
    out = c.harness(exe, ["params %d %s" % (n, which) for n in RATES])
    for n, l in zip(RATES, out):
        with open("%s/rate_%d.json" % (d, n), "w") as f:
            f.write(l)
    return d


def generate(c, profile="full"):
    c.tlc("GenHash", env={"PROFILE": profile}, timeout=850)
    # and inputs that turn the decisions the code takes on its data, if any
    groups = [(n, call, "") for n in RATES for call in ("hash", "opt", "unopt")]
    for k, (g, ins) in enumerate(zip(groups, watch.search(c, groups))):
        if ins:
            json.dump({"n": g[0], "kind": "watch", "inputs": ins}, open("%s/in_%d_watch_%d.json" % (c.work, g[0], k), "w"))
    files = sorted(glob.glob(c.work + "/in_*.json"))
    if not files:
        raise ToolError("GenHash wrote nothing")
    return files


def build(c):
    exe, other = c.build_both("native", "cfg-default", ["hash"], "cfg-std,cfg-permstd")
    return exe["hash"], other and other["hash"]


def record(c, exe, other, files, cmd="both", chunk=1500):
    """turn generated inputs into command files, run the harness, number the traces"""
    cmds, n_in = [], 0
    for f in files:
        d = json.load(open(f))
        os.remove(f)
        lines = ["%s %d %s" % (cmd, d["n"], " ".join(w)) for w in d["inputs"]]
        n_in += len(lines)
        for i in range(0, len(lines), chunk):
            cmds.append(lines[i:i + chunk])
    # spread the widest rates first so that TLC's workers finish together
    cmds.sort(key=lambda ls: -int(ls[0].split()[1]) * len(ls))
    paths = []
    for i, ls in enumerate(cmds):
        p = "%s/tr_%d" % (c.work, i + 1)
        open(p, "w").write("\n".join(ls) + "\n")
        paths.append(p)
    c.harness_many(exe, paths)
    more = c.again(other, paths)
    return len(paths) + len(more), n_in + sum(sum(1 for _ in open(p)) for p in more)


def validate(c, mode, params, nfiles, n_events):
    r = c.tlc("TraceHash", env={"MODE": mode, "NFILES": str(nfiles), "PARAMS": params}, timeout=850)
    bads = sorted(glob.glob(c.work + "/bad_*.json"))
    if not r["ok"]:
        for b in bads[:5]:
            d = json.load(open(b))
            c.violation("rate-%s event not explained by the specification: in=%s" % (d["event"].get("n"), d["event"].get("in")), d)
        if not bads:
            raise ToolError("TLC rejected without a recorded event:\n" + r["out"][-3000:])
    elif r["distinct"] != n_events + nfiles:
        raise ToolError("trace validation consumed %d states, expected %d" % (r["distinct"], n_events + nfiles))
    for b in bads:
        os.remove(b)
    c.cov["traces_validated_against_impl"] += nfiles
    c.cov["events_validated"] = c.cov.get("events_validated", 0) + n_events
    return r


def sample_events(c, nfiles):
    for i in (1, max(1, nfiles // 2), nfiles):
        with open("%s/tr_%d.ndjson" % (c.work, i)) as f:
            c.sample(json.loads(f.readline()))


def c01(c):
    exe, other = build(c)
    c.self_test("FieldSelfTest")
    # what the code does on every input: its recorded operations
    watch.programs(c, "C01", SPEC + "/params")
    nf, ne = record(c, exe, other, generate(c))
    sample_events(c, nf)
    validate(c, "C01", SPEC + "/params", nf, ne)


def c02(c):
    # the schedules themselves: equal as machines over small fields
    for x in "abcde" if THOROUGH else "ac":
        if not c.tlc("Permutation", cfg="Perm_" + x)["ok"]:
            raise ToolError("the specification's schedules differ (Perm_%s)" % x)
    exe, other = build(c)
    params = dump_params(c, exe)
    # and equal for every input on the shipped parameters
    sym = c.tlc("SymEquiv", env={"PARAMS": params})
    c.cov["all_inputs_equivalence_of_schedules_on_shipped_parameters"] = sym["ok"]
    if not sym["ok"]:
        c.log("note: shipped parameters do not satisfy the symbolic equivalence; recorded outputs decide")
    watch.programs(c, "C02", params)
    nf, ne = record(c, exe, other, generate(c))
    sample_events(c, nf)
    validate(c, "C02", params, nf, ne)
    if sym["ok"] and THOROUGH and not c.violations:
        validate(c, "C02full", params, nf, ne)


def params_check(c, mode, what):
    exe, other = build(c)
    sets = [("const", dump_params(c, exe))]
    static = dump_params(c, exe, "static", "static")
    others = [("static", static)]
    if other:
        others.append(("optimized build", dump_params(c, other, "other")))
    for name, d in others:
        if any(open(sets[0][1] + "/rate_%d.json" % n).read() != open(d + "/rate_%d.json" % n).read() for n in RATES):
            sets.append((name, d))
    for name, d in sets:
        r = c.tlc("TraceParams", env={"PARAMS": d, "MODE": mode})
        c.cov["traces_validated_against_impl"] += 7
        for n in RATES:
            q = json.load(open(d + "/rate_%d.json" % n))
            c.cov["elements_checked"] = c.cov.get("elements_checked", 0) + q["count"]
            if n == 1:
                c.sample({"rate": 1, "mds": q["mds"], "arc row 1": q["arc"][0], "oarc row 1": q["oarc"][0]})
        if not r["ok"]:
            for b in sorted(glob.glob(c.work + "/bad_*.json")):
                x = json.load(open(b))
                c.violation("rate %d (%s): %s wrong in: %s" % (x["rate"], name, what, ", ".join(x["fields"])), x)
            if not c.violations:
                raise ToolError("TraceParams rejected without a record:\n" + r["out"][-2000:])
    return sets[0][1]


def c07(c):
    # the committed derivation is what the specification derives now
    c.self_test("KeccakSelfTest")
    c.tlc("GenReference", env={"OUT": c.work})
    for n in RATES:
        if json.load(open(c.work + "/rate_%d.json" % n)) != json.load(open(SPEC + "/params/rate_%d.json" % n)):
            raise ToolError("spec/params/rate_%d.json is not what GenReference derives" % n)
    params_check(c, "C07", "base parameters")


def c08(c):
    c.self_test("LinearSelfTest")
    params_check(c, "C08", "optimized parameters")


def c09(c):
    d = params_check(c, "C09", "mixing matrix or exponent")
    if c.violations:
        return
    exe, other = build(c)
    # the recorded operations of both permutations, undone for every input at once
    c.self_test("ProgramSelfTest", True)
    watch.programs(c, "C09", d)
    nf, ne = record(c, exe, other, generate(c, profile="light"))
    sample_events(c, nf)
    validate(c, "C09", d, nf, ne)
