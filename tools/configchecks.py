"""C14: one program, every configuration."""
import glob, hashlib, json, os, subprocess
from hashchecks import generate
from vlib import *
import watch, word32

CRATES = ("poseidon377", "poseidon-permutation", "poseidon-parameters", "decaf377")


def features(c):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    env["PATH"] = "/root/.cargo/bin:" + env["PATH"]
    r = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1", "--manifest-path", VERIF + "/harness/native/Cargo.toml"],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise ToolError("cargo metadata: " + r.stderr[-2000:])
    t = {}
    for p in json.loads(r.stdout)["packages"]:
        if p["name"] in CRATES:
            t[p["name"]] = {f: [x.replace("?", "").split("/") if "/" in x else [p["name"], x] for x in items if not x.startswith("dep:")]
                            for f, items in p["features"].items()}
    json.dump(t, open(c.work + "/features.json", "w"))


def configs(c):
    features(c)
    r = c.tlc("FeaturesMC")
    if not r["ok"]:
        raise ToolError("feature tables are incoherent:\n" + r["out"][-2000:])
    c.tlc("GenConfigs")
    d = json.load(open(c.work + "/configs.json"))
    c.cov["effective_feature_sets"] = d["effective"]
    c.cov["setting_pairs_covered"] = d["pairs"]
    return d["configs"]


def build_watched(c, k, cf):
    watch.prepare()
    return c.build("watchcfg", ",".join(cf["request"]), ["wcfg"], release=cf["profile"] == "release",
                   target="t-wconfig-%d" % (k % 3), name="wcfg-c%d" % k)["wcfg"]


HARDENED = {"CARGO_PROFILE_RELEASE_PANIC": "abort", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true",
            "CARGO_PROFILE_RELEASE_OPT_LEVEL": "s", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "4"}


def build_config(c, k, cf):
    if cf["profile"] == "word32":
        return word32.build(c, ",".join(cf["request"]), "hash-c%d" % k)
    if cf["profile"] == "hardened":
        return c.build("native", ",".join(cf["request"]), ["hash"], release=True, settings=HARDENED,
                       target="t-hardened", name="hash-c%d" % k)["hash"]
    return c.build("native", ",".join(cf["request"]), ["hash"], release=cf["profile"] == "release",
                   target="t-config-%d" % (k % 3), name="hash-c%d" % k)["hash"]


def build_all(c, cfs, build=build_config):
    from concurrent.futures import ThreadPoolExecutor
    plain = [k for k in range(len(cfs)) if cfs[k]["profile"] in ("debug", "release")]
    lanes = [plain[i::3] for i in range(3)] + [[k for k in range(len(cfs)) if cfs[k]["profile"] == p] for p in ("hardened", "word32")]
    def lane(ks):
        out = []
        for k in ks:
            try:
                out.append((k, build(c, k, cfs[k])))
            except ToolError as e:
                out.append((k, e))
        return out
    with ThreadPoolExecutor(len(lanes)) as ex:
        res = dict(x for l in ex.map(lane, lanes) for x in l)
    return [res[k] for k in range(len(cfs))]


@watch.soft(lambda *a: [])
def watched(c, cfs):
    """programs of every configuration, and inputs that turn looks any of them has"""
    watch.prepare()
    cfs = [x for x in cfs if x["profile"] in ("debug", "release")]
    exes = build_all(c, cfs, build_watched)
    for e in exes:
        if isinstance(e, Exception):
            raise e
    looking = []
    for k, exe in enumerate(exes):
        for n in range(1, 8):
            w = " ".join("%x" % (P // (i + 3)) for i in range(n + 1))
            out = [c.harness(exe, [], args=["trace", call, str(n)] + w.split())[0] for call in ("hash", "opt", "unopt")]
            open(c.work + "/cp_%d_%d.ndjson" % (k + 1, n), "w").write("\n".join(out) + "\n")
            looking += [(k, n, call) for call, o in zip(("hash", "opt", "unopt"), out) if json.loads(o)["looks"]]
    c.tlc("TraceConfigPrograms", env={"NCONFIGS": str(len(cfs))})
    done = [k for k in range(2, len(cfs) + 1) if all(os.path.exists(c.work + "/alike_%d_%d.json" % (k, n)) for n in range(1, 8))]
    c.cov["configurations_equal_to_the_default_for_every_input"] = len(done)
    if len(done) < len(cfs) - 1:
        c.log("note: %d of %d configurations are seen equal to the default one for every input" % (len(done), len(cfs) - 1))
    for f in glob.glob(c.work + "/cp_*") + glob.glob(c.work + "/alike_*"):
        os.remove(f)
    ins = []
    for k in sorted({x[0] for x in looking}):
        g = [{"n": n, "t": n + 1, "call": call} for kk, n, call in looking if kk == k][:12]
        found = watch.rounds_of(c, exes[k], g, lambda g, i, w: "%d %s %d %s" % (i, g["call"], g["n"], " ".join(w)), 4)[0]
        ins += [(x["n"], w) for x, ws in zip(g, found) for w in ws[:12]]
    return ins


def c14(c):
    cfs = configs(c)
    exes = build_all(c, cfs)
    if isinstance(exes[0], Exception):
        raise exes[0]
    lost = [k for k, e in enumerate(exes) if isinstance(e, word32.Missing)]
    if lost:
        c.log("note: no 32-bit target: %s" % exes[lost[0]])
        c.cov["word32"] = "not built"
        cfs, exes = ([x for k, x in enumerate(l) if k not in lost] for l in (cfs, exes))
    for k, e in enumerate(exes):
        if isinstance(e, Exception):
            c.violation("feature set %s (%s) no longer builds" % (cfs[k]["request"], cfs[k]["profile"]), {"config": cfs[k], "output": str(e)})
    if c.violations:
        return
    cmds = [["params %d %s" % (n, w) for n in range(1, 8) for w in ("const", "static")]]
    for f in generate(c, profile="light"):
        d = json.load(open(f))
        os.remove(f)
        cmds.append(["both %d %s" % (d["n"], " ".join(w)) for w in d["inputs"]])
    found = watched(c, cfs)
    if found:
        cmds.append(["both %d %s" % (n, " ".join(w)) for n, w in found])
    cmds.sort(key=lambda ls: -sum(len(x) for x in ls))
    for k, exe in enumerate(exes):
        paths = []
        for i, ls in enumerate(cmds):
            p = "%s/c%d_tr_%d" % (c.work, k + 1, i + 1)
            open(p, "w").write("\n".join(ls) + "\n")
            paths.append(p)
        try:
            c.harness_many(exe, paths)
        except ImplCrash as e:
            c.violation("feature set %s (%s): %s" % (cfs[k]["request"], cfs[k]["profile"], e.what), {"config": cfs[k], "crash": e.data})
            return
    n = sum(map(len, cmds))
    c.log("recorded %d events in each of %d configurations" % (n, len(cfs)))
    c.cov["configurations"] = [{"request": x["request"], "profile": x["profile"]} for x in cfs]
    c.sample(json.loads(open("%s/c2_tr_%d.ndjson" % (c.work, len(cmds))).readline()))
    pairs = []
    for i in range(1, len(cmds) + 1):
        seen = set()
        for k in range(2, len(cfs) + 1):
            h = hashlib.sha256(open("%s/c%d_tr_%d.ndjson" % (c.work, k, i), "rb").read()).digest()
            if h not in seen:
                pairs.append([k, i])
            seen.add(h)
    json.dump(pairs, open(c.work + "/pairs.json", "w"))
    r = c.tlc("TraceConfigs", env={"NFILES": str(len(cmds))})
    if not r["ok"]:
        for b in sorted(glob.glob(c.work + "/bad_*.json")):
            d = json.load(open(b))
            cf, i = cfs[d["config"] - 1], d["position"] - 1
            d.update(configuration=cf, command=cmds[d["file"] - 1][i])
            for k, w in ((1, "default"), (d["config"], "this")):
                ls = open("%s/c%d_tr_%d.ndjson" % (c.work, k, d["file"])).read().splitlines()
                d[w] = ls[i][:3000] if i < len(ls) else None
            c.violation("feature set %s (%s) differs from the default one: %s" % (cf["request"], cf["profile"], d["command"][:120]), d)
        if not c.violations:
            raise ToolError("TraceConfigs rejected without a record:\n" + r["out"][-2000:])
    else:
        want = sum(len(cmds[i - 1]) + 1 for _, i in pairs)
        if r["distinct"] != want:
            raise ToolError("trace validation consumed %d states, expected %d" % (r["distinct"], want))
    c.cov["traces_validated_against_impl"] += len(cmds) * len(cfs)
    c.cov["events_validated"] = n * len(cfs)
    c.cov["records_judged_apart"] = len(pairs)
