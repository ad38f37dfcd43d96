"""C04, C05, C06: circuits."""
import glob, json, os
from vlib import *
import hashchecks, watch


def watched_modes(n):
    t = n + 1
    return ["w" * t, "i" * t, "c" * t, "c" + "w" * n, "w" + "c" * n, ("iw" * t)[:t]]


def shapes(n):
    """allocation modes whose circuits are judged for every operand value"""
    t = n + 1
    if t <= (4 if THOROUGH else 3):
        out = [""]
        for _ in range(t):
            out = [x + m for x in out for m in "wic"]
    else:
        out = [m for m in watched_modes(n)] + ["w" * k + "c" + "w" * (n - k) for k in range(1, t)]
        out += ["c" * k + "i" + "c" * (n - k) for k in range(1, t)]
    return [m for m in dict.fromkeys(out) if set(m) != {"c"}]


def prepare(c, want_full, want_brief):
    exe, other = c.build_both("r1cs", "", ["vr1cs"], "parallel")
    exe, other = exe["vr1cs"], other and other["vr1cs"]
    hexe = c.build("native", "cfg-default", ["hash"])["hash"]
    params = hashchecks.dump_params(c, hexe)
    modes = [(n, m) for n in range(1, 8) for m in watched_modes(n)]
    found = watch.search(c, [(n, "circ:" + m, "") for n, m in modes])
    json.dump([{"n": n, "modes": list(m), "ins": x} for (n, m), x in zip(modes, found)], open(c.work + "/watch.json", "w"))
    c.tlc("GenCircuit")
    paths, n, i = [], 0, 0
    for f in sorted(glob.glob(c.work + "/prog_*.json")):
        progs = json.load(open(f))
        # groups: a full record opens a shape, what follows refers to it
        if want_full and not want_brief and "prog_watch" in f:
            progs += unlike(c, exe, progs)
        groups, cur = [], []
        for p in progs:
            if p.startswith("prove full constraints") and cur:
                groups.append(cur)
                cur = []
            cur.append(p)
        groups.append(cur)
        per = max(1, len(groups) // 8 + 1)
        for g in range(0, len(groups), per):
            ls = [p for x in groups[g:g + per] for p in x
                  if (want_full and p.split()[1] == "full") or (want_brief and p.split()[1] != "full")]
            if not ls:
                continue
            i += 1
            path = "%s/c_%d" % (c.work, i)
            open(path, "w").write("\n".join(ls) + "\n")
            paths.append(path)
            n += len(ls)
        os.remove(f)
    order = sorted(paths, key=lambda p: -os.path.getsize(p))
    c.harness_many(exe, order)
    more = c.again(other, order)
    paths += more
    i += len(more)
    n += sum(sum(1 for _ in open(p)) for p in more)
    c.log("recorded %d circuits in %d files" % (n, i))
    c.cov["programs"] = n
    return params, paths, n


def unlike(c, exe, progs):
    """full records of the programs whose matrices differ from those of their shape"""
    path = c.work + "/side"
    open(path, "w").write("\n".join(p.replace("prove full", "prove brief", 1) for p in progs) + "\n")
    c.harness_many(exe, [path])
    first, out = None, []
    for p, l in zip(progs, open(path + ".ndjson")):
        e = json.loads(l)
        if e["fail"] or p.startswith("prove full"):
            first = e.get("digest")
        elif e["digest"] != first:
            out.append(p.replace("prove brief", "prove full", 1))
    few = 60 if THOROUGH else 8
    return out if len(out) <= few else [out[k * len(out) // few] for k in range(few)]


def report(c, r, pattern="bad_*.json"):
    for b in sorted(glob.glob(c.work + "/" + pattern)):
        d = json.load(open(b))
        src = "%s/c_%d" % (c.work, d["file"])
        d["program"] = open(src).read().splitlines()[d["position"] - 1] if "steps" not in d else d["steps"]
        c.violation("circuit %s: %s" % (str(d["program"])[:200], str(d.get("faults") or {k: d[k] for k in d if k not in ("steps", "program", "first")})[:300]), d)
    if not r["ok"] and not c.violations:
        raise ToolError("TLC rejected without a record:\n" + r["out"][-2000:])


def circuits(c, mode):
    params, paths, n = prepare(c, True, True)
    for p in paths[:3]:
        e = json.loads(open(p + ".ndjson").readline())
        c.sample({k: e[k] for k in e if k not in ("lcs", "rows", "named")})
    if mode == "C04":
        slim(paths)
    r = c.tlc("TraceCircuit", env={"MODE": mode, "NFILES": str(len(paths)), "PARAMS": params})
    report(c, r)
    if mode == "C04":
        watch.circuit_programs(c, SPEC + "/params", [(n, m) for n in range(1, 8) for m in shapes(n)])
    if r["ok"] and r["distinct"] != n + len(paths):
        raise ToolError("consumed %d states, expected %d" % (r["distinct"], n + len(paths)))
    c.cov["traces_validated_against_impl"] += len(paths)
    c.cov["events_validated"] = n


def slim(paths):
    """C04 does not read the matrices"""
    for p in paths:
        out = []
        for l in open(p + ".ndjson"):
            e = json.loads(l)
            for k in ("lcs", "rows", "named"):
                e.pop(k, None)
            out.append(json.dumps(e))
        open(p + ".ndjson", "w").write("\n".join(out) + "\n")


def c04(c):
    circuits(c, "C04")


def c06(c):
    circuits(c, "C06")


def c05(c):
    c.self_test("SparseSelfTest")
    params, paths, n = prepare(c, True, False)
    r = c.tlc("TraceSound", env={"NFILES": str(len(paths)), "PARAMS": params})
    report(c, r)
    rows = 0
    for p in paths:
        for k, l in enumerate(open(p + ".ndjson")):
            e = json.loads(l)
            if e["fail"]:
                continue
            rows += e["nc"]
            # determined outputs take the value they take in one satisfied assignment
            wrong = [h["name"] for h in e["hashes"] if h["got"] != h["native"]]
            if e["sat"] is not True or wrong:
                c.violation("determined output is not the hash: %s" % e["steps"], {"steps": e["steps"], "sat": e["sat"], "wrong": wrong})
    c.cov["constraints_interpreted"] = rows
    d = glob.glob(c.work + "/differs_*.json")
    c.cov["outputs_symbolically_equal_to_published_hash"] = not d and r["ok"]
    if d:
        c.log("note: %d circuits determine their outputs in a form other than the reference schedule's" % len(d))
    c.cov["traces_validated_against_impl"] += n
