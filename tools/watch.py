"""The copy of decaf377 whose field elements carry marks."""
import glob, json, os, shutil
from vlib import *

NAME = "decaf377-0.10.1"


def prepare():
    """write .build/watch/decaf377 (only when it is missing or differs)"""
    src = sorted(glob.glob("/root/.cargo/registry/src/*/" + NAME))
    if not src:
        raise ToolError("decaf377 sources not found in the cargo registry")
    dst = os.path.join(BUILD, "watch", "decaf377")
    wrapper = open(os.path.join(VERIF, "harness", "watch", "wrapper.rs")).read()
    at = os.path.join(dst, "src", "fields", "fq", "u64", "wrapper.rs")
    done = os.path.join(dst, "done")
    if os.path.exists(done) and os.path.exists(at) and open(at).read() == wrapper:
        return
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.copytree(src[0], dst, ignore=shutil.ignore_patterns("tests", "benches", ".cargo*", "Cargo.lock"))
    # no dev-dependencies, tests or benches in the copy
    out, skip = [], False
    for l in open(os.path.join(dst, "Cargo.toml")):
        if l.startswith("["):
            skip = l.startswith(("[dev-dependencies", "[[test", "[[bench", "[profile"))
        if not skip:
            out.append(l)
    open(os.path.join(dst, "Cargo.toml"), "w").writelines(out)
    open(at, "w").write(wrapper)
    with open(os.path.join(dst, "src", "lib.rs"), "a") as f:
        f.write("\npub use fields::fq::{Look, Op};\n")
    p = os.path.join(dst, "src", "fields", "fq.rs")
    s = open(p).read().replace("pub type Fq = u64::Fq;", "pub type Fq = u64::Fq;\n        pub use u64::wrapper::{Look, Op};")
    open(p, "w").write(s)
    open(done, "w").write("ok")


def build(c, bin="vwatch"):
    prepare()
    return c.build("watch", "", [bin])[bin]


def soft(default):
    """watching only adds to what a check covers: when it cannot run, say so and go on"""
    def wrap(f):
        def g(c, *a, **k):
            try:
                return f(c, *a, **k)
            except ToolError as e:
                c.log("note: not watched (%s): %s" % (f.__name__, str(e)[-600:]))
                c.cov.setdefault("not_watched", []).append(f.__name__)
                return default(*a)
        return g
    return wrap


def rounds_of(c, exe, groups, line, rounds=8, budget=40000):
    """groups: {n, t, ..}, small ones first; line(g, id, words) the harness line.  Returns
    per group the words that turn its looks, and the answers to its first probe"""
    left, end = budget * (8 if THOROUGH else 1), time.time() + (3600 if THOROUGH else 170)
    found, turned, first, ids = [[] for _ in groups], [0] * len(groups), [None] * len(groups), list(range(len(groups)))
    if not THOROUGH:
        rounds = min(rounds, 6)
    for r in range(rounds):
        if r > 1 and time.time() > end:
            c.cov["searches_cut_short"] = c.cov.get("searches_cut_short", 0) + len(ids)
            break
        json.dump([groups[g] for g in ids], open(c.work + "/groups.json", "w"))
        c.tlc("GenObserve", env={"ROUND": str(r), "NGROUPS": str(len(ids))}, timeout=600)
        lines, owner, over = [], [], set()
        for k, g in enumerate(ids):
            at = c.work + "/obs_%%s_%d_%d" % (r, k + 1)
            d = json.load(open(at % "ins" + ".json"))
            found[g] += d["ins"]
            turned[g] += d["looks"]
            ask = json.load(open(at % "ask" + ".json"))
            left -= len(ask)
            if left < 0:
                over.add(g)
                left += len(ask)
                continue
            for w in ask:
                owner.append(k)
                lines.append(line(groups[g], len(lines), w))
        if not lines:
            break
        out = []
        while len(out) < len(lines) and (r == 0 or time.time() < end):
            some = lines[len(out):len(out) + (600 if r else len(lines))]
            out += c.harness(exe, some, timeout=600)
            if len(out) % 600 and len(out) != len(lines):
                raise ToolError("watch harness lost answers")
        over |= set(ids[k] for k in owner[len(out):])
        per = [[] for _ in ids]
        for k, l in zip(owner, out):
            per[k].append(l)
        c.log("watch round %d: %d probes" % (r, len(lines)))
        c.cov["watched_runs"] = c.cov.get("watched_runs", 0) + len(lines)
        # only groups that look at their data go on
        keep = []
        if over:
            c.cov["searches_cut_short"] = c.cov.get("searches_cut_short", 0) + len(over)
        for k, g in enumerate(ids):
            if g in over:
                continue
            if r == 0:
                first[g] = json.loads(per[k][0])
            if r > 0 or first[g]["total"] or first[g]["fail"]:
                keep.append((k, g))
        for n, (k, g) in enumerate(keep):
            nodes = c.work + "/obs_nodes_%d_%d.json"
            os.replace(nodes % (r, k + 1), nodes % (r, n + 1)) if n != k else None
            open(c.work + "/obs_probes_%d_%d.ndjson" % (r, n + 1), "w").write("\n".join(per[k]) + "\n")
        ids = [g for _, g in keep]
        if not ids:
            break
    for f in glob.glob(c.work + "/obs_*"):
        os.remove(f)
    # few looks at few words need few inputs
    for g, x in enumerate(groups):
        cap = 400 if THOROUGH else 8 if first[g]["total"] <= x["t"] else 80
        q = found[g]
        found[g] = q if len(q) <= cap else [q[k * len(q) // cap] for k in range(cap)]
    c.cov["watched_calls_without_looks_at_their_data"] = sum(1 for x in first if x["total"] == 0)
    c.cov["watched_calls_with_looks"] = sum(1 for x in first if x["total"])
    c.cov["looks_turned"] = sum(turned)
    return found, first


@soft(lambda groups: [[] for _ in groups])
def search(c, groups):
    """groups: (rate, call, earlier calls).  Returns per group the inputs that turn its looks"""
    exe = build(c)
    return rounds_of(c, exe, [{"n": n, "t": n + 1, "call": call, "pre": pre} for n, call, pre in groups],
                     lambda g, i, w: "%d %s%s %d %s" % (i, g["pre"] + " ; " if g["pre"] else "", g["call"], g["n"], " ".join(w)))[0]


def fill(cmds, w):
    sub = {"#%d" % (k + 1): x for k, x in enumerate(w)}
    return [" ".join(sub.get(x, x) for x in cmd.split()) for cmd in cmds]


def open_histories(c, exe, rounds=8, budget=40000):
    """groups.json: histories over open words (open); returns the groups, the words
    found for each, and the answers to the first probes"""
    groups = json.load(open(c.work + "/groups.json"))
    opens = [g.pop("open") for g in groups]
    for k, g in enumerate(groups):
        g["k"] = k
    found, first = rounds_of(c, exe, groups, lambda g, i, w: "%d %s" % (i, " ; ".join(fill(opens[g["k"]], w))), rounds, budget)
    for g, o in zip(groups, opens):
        g["open"] = o
    return groups, found, first


@soft(lambda *a: 0)
def matrices(c, goal):
    """matrix histories over open entries; writes mat_watch_*.json for the words found"""
    exe = build(c, "wmat")
    env = {"GOAL": goal}
    c.tlc("GenMatWatch", env=dict(env, PHASE="ask"))
    groups, found, first = open_histories(c, exe)
    c.cov["largest_degree_of_a_value_computed_without_looks"] = max([x["degree"] for x in first if not x["total"]] or [0])
    c.cov["shapes_with_looks"] = [g["name"] for g, x in zip(groups, first) if x["total"]][:40]
    f = [{"g": g + 1, "w": w} for g, ws in enumerate(found) for w in ws]
    if f:
        json.dump(f, open(c.work + "/found.json", "w"))
        c.tlc("GenMatWatch", env=dict(env, PHASE="fill"))
    return len(f)


@soft(lambda *a: [])
def generics(c):
    """histories of parameter sets that turn the looks of generic instances"""
    exe = build(c, "wgen")
    c.tlc("GenGenWatch")
    groups, found, first = open_histories(c, exe, 6, 7000)
    c.cov["parameter_shapes_without_looks"] = [g["name"] for g, x in zip(groups, first) if not x["total"]]
    return [sum((fill(g["open"], w) for w in ws), []) for g, ws in zip(groups, found) if ws]


@soft(lambda *a: [])
def programs(c, mode, params):
    """record what each rate's calls do to their input words and let TLC compare
    the meanings; the rates for which equality holds for every input"""
    exe = build(c)
    ops = 0
    for n in range(1, 8):
        w = " ".join(("%x" % (P // (k + 3))) for k in range(n + 1))
        out = []
        for k in ("hash", "opt", "unopt"):
            out += c.harness(exe, [], args=["trace", k, str(n)] + w.split())
        open(c.work + "/program_%d.ndjson" % n, "w").write("\n".join(out) + "\n")
        ops += sum(len(json.loads(o)["ops"]) for o in out)
    c.tlc("TraceProgram", env={"MODE": mode, "PARAMS": params})
    done = [n for n in range(1, 8) if os.path.exists(c.work + "/proved_%d.json" % n)]
    c.cov["recorded_operations"] = ops
    c.cov["rates_equal_for_every_input"] = done
    if len(done) < 7:
        c.log("note: the machine does not see equality for every input at rates %s; recorded results decide" % sorted(set(range(1, 8)) - set(done)))
    return done


@soft(lambda *a: [])
def circuit_programs(c, params, modes):
    """recorded syntheses judged for every value of the allocated operands"""
    exe = build(c)
    for i, (n, m) in enumerate(modes):
        w = ["%x" % (P // (k + 3)) for k in range(n + 1)]
        open(c.work + "/circprog_%d.json" % (i + 1), "w").write(c.harness(exe, [], args=["trace", "circ:" + m, str(n)] + w)[0])
    c.tlc("TraceCircuitProgram", env={"NITEMS": str(len(modes)), "PARAMS": params})
    v = [json.load(open(c.work + "/circverdict_%d.json" % (i + 1)))["verdict"] for i in range(len(modes))]
    c.cov["shapes_satisfied_and_correct_for_every_operand_value"] = sum(1 for x in v if x == "holds")
    other = [(n, m, x) for (n, m), x in zip(modes, v) if x != "holds"]
    if other:
        c.log("note: not seen to hold for every value: %s; recorded values decide" % other[:5])
        c.cov["shapes_not_seen_to_hold_for_every_value"] = ["%d %s: %s" % o for o in other]
    return v


@soft(lambda *a: 0)
def generic_programs(c, histories):
    """histories: command lists of the generic harness.  Each parameter set is run once
    on recorded words; TLC compares the meanings with the schedules of the parameters"""
    exe = build(c, "wgeneric")
    lines, n = [], 0
    for cmds in histories:
        out, runs = [], 0
        for x in cmds:
            w = x.split()
            if w[0] == "set":
                # exponents are raised by repeated multiplication
                small = w[4] == "inv" or int(w[4], 16) < 0x200
                if small:
                    out.append(x)
                inv, runs = w[4] == "inv", 0
            elif small:
                runs += 1
                if runs == 4 and w[0] == "run":
                    out.append("prog " + " ".join(w[1:]))
                    n += 1
                    if not inv:
                        t = len(w) - 1
                        for m in ("w" * t, "c" + "i" * (t - 1), "w" + "c" * (t - 1)):
                            out.append("circprog %s %s" % (m, " ".join(w[1:])))
                            n += 1
        lines.append(out)
    paths = []
    for out in lines:
        if out:
            paths.append("%s/gp_%d" % (c.work, len(paths) + 1))
            open(paths[-1], "w").write("\n".join(out) + "\n")
    c.harness_many(exe, paths)
    c.tlc("TraceGenericProgram", env={"NFILES": str(len(paths))})
    yes = sum(json.load(open(f))["yes"] for f in glob.glob(c.work + "/seen_*.json"))
    c.cov["programs_recorded"] = n
    c.cov["programs_equal_for_every_input"] = yes
    if yes != n:
        un = [json.load(open(f)) for f in glob.glob(c.work + "/unseen_*.json")]
        c.log("note: %d of %d programs not seen equal for every input: %s" % (n - yes, n, str(un[:4])))
    return yes
