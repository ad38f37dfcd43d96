"""C15-C17: the parameter generator.  Its crate is outside the workspace and
some of its modules do not compile against the current parameter crate; the
harness is built from a copy of its sources without those modules."""
import glob, json, os, re, shutil, subprocess
from vlib import *

BROKEN = ("v1", "v2", "appendix_g", "mds", "round_constants", "poseidon_build")


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def copy_sources(dst, skip=()):
    src = "/repo/poseidon-paramgen/src"
    want = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            if f.endswith(".rs") and rel != "lib.rs":
                want.add(rel)
                write_if_changed(os.path.join(dst, rel), open(os.path.join(d, f)).read())
    return open(src + "/lib.rs").read()


def filtered_root(text, drop):
    """the crate root without the modules that do not compile"""
    out, pend = [], []
    for line in text.splitlines():
        s = line.strip()
        m = re.match(r"(pub(\([a-z]+\))?\s+)?mod\s+(\w+)\s*;", s)
        if s.startswith("#![deny") or s.startswith("//!"):
            continue
        if s.startswith("#[") or s.startswith("///"):
            pend.append(line)
            continue
        if m and m.group(3) in drop:
            pend = []
            continue
        if re.match(r"pub use (%s)\b" % "|".join(drop), s):
            pend = []
            continue
        out += pend + [line]
        pend = []
    return "\n".join(out) + "\n"


def build(c):
    d = os.path.join(BUILD, "pg")
    root = filtered_root(copy_sources(d + "/src"), BROKEN)
    root += '\n#[allow(missing_docs, dead_code, unused)]\n#[path = "%s/harness/paramgen/vmain.rs"]\npub mod vmain;\n' % VERIF
    write_if_changed(d + "/src/lib.rs", root)
    write_if_changed(d + "/src/bin/pg.rs", "fn main() { pg::vmain::main() }\n")
    write_if_changed(d + "/Cargo.toml", open(VERIF + "/harness/paramgen/Cargo.toml.in").read())
    lock = VERIF + "/harness/paramgen/Cargo.lock"
    if os.path.exists(lock):
        write_if_changed(d + "/Cargo.lock", open(lock).read())
    exe, other = c.build_both("pg", "", ["pg"], "", src=d)
    return exe["pg"], other and other["pg"]


def build_consts(c):
    """The round-constant module is written against a matrix interface the parameter
    crate no longer has: it is built against a stand-in (harness/paramgen/old).
    None where it cannot be"""
    d = os.path.join(BUILD, "pgc")
    root = filtered_root(copy_sources(d + "/src"), [x for x in BROKEN if x != "round_constants"])
    root += '\n#[allow(missing_docs, dead_code, unused)]\n#[path = "%s/harness/paramgen/vmain.rs"]\npub mod vmain;\n' % VERIF
    write_if_changed(d + "/src/lib.rs", root)
    write_if_changed(d + "/src/bin/pgc.rs", "fn main() { pg::vmain::main() }\n")
    toml = open(VERIF + "/harness/paramgen/Cargo.toml.in").read()
    toml = toml.replace('poseidon-parameters = { path = "/repo/poseidon-parameters" }',
                        'poseidon-parameters = { package = "poseidon-parameters-old", path = "%s/harness/paramgen/old" }' % VERIF)
    write_if_changed(d + "/Cargo.toml", toml)
    lock = VERIF + "/harness/paramgen/Cargo.consts.lock"
    if os.path.exists(lock):
        write_if_changed(d + "/Cargo.lock", open(lock).read())
    try:
        return c.build("pgc", "consts", ["pgc"], src=d, target="t-pgc")["pgc"]
    except ToolError as e:
        c.log("note: the round-constant module does not build against the stand-in: %s" % str(e)[-800:])
        c.cov["round_constant_matrices"] = "not built"
        return None


def fields(c, exe):
    rows = re.findall(r"^\s+f(\d+) F\d+ \d+ \d+ (\w+) ", open(VERIF + "/harness/paramgen/fields.in").read(), re.M)
    evs = [json.loads(x) for x in c.harness(exe, ["field %s" % k for k, _ in rows])]
    json.dump([[k, e["p"], s == "sep"] for (k, s), e in zip(rows, evs)], open(c.work + "/fields.json", "w"))
    c.cov["fields"] = len(rows)


def run(c, goal, what, exe=None):
    exe, other = (exe, None) if exe else build(c)
    fields(c, exe)
    c.tlc("GenParamgen", env={"GOAL": goal})
    paths, n, whole = [], 0, goal == "C17"
    for f in sorted(glob.glob(c.work + "/cmds_*.json")):
        cmds = json.load(open(f))
        os.remove(f)
        step = len(cmds) if whole else 60
        for a in range(0, len(cmds), max(1, step)):
            p = "%s/g_%d" % (c.work, len(paths) + 1)
            open(p, "w").write("\n".join(cmds[a:a + step]) + "\n")
            paths.append(p)
        n += len(cmds)
    c.harness_many(exe, paths)
    more = c.again(other, paths)
    paths += more
    n += sum(sum(1 for _ in open(p)) for p in more)
    c.log("recorded %d events in %d traces" % (n, len(paths)))
    for p in paths[::max(1, len(paths) // 5)]:
        ls = open(p + ".ndjson").read().splitlines()
        c.sample(json.loads(ls[len(ls) // 2]))
    r = c.tlc("TraceParamgen", env={"NFILES": str(len(paths))})
    if not r["ok"]:
        for b in sorted(glob.glob(c.work + "/bad_*.json")):
            d = json.load(open(b))
            cmds = open("%s/g_%d" % (c.work, d["file"])).read().splitlines()[:d["position"]]
            d["commands"] = cmds if whole else cmds[-1:]
            c.violation("%s: %s gave %s, expected %s" % (what, cmds[-1][:160], json.dumps(d["event"])[:200], str(d["expected"])[:200]), d)
        if not c.violations:
            raise ToolError("TraceParamgen rejected without a record:\n" + r["out"][-2000:])
    elif r["distinct"] != n + len(paths):
        raise ToolError("trace validation consumed %d states, expected %d" % (r["distinct"], n + len(paths)))
    c.cov["traces_validated_against_impl"] += len(paths)
    c.cov["events_validated"] = c.cov.get("events_validated", 0) + n


def c15(c):
    run(c, "C15", "exponent")


def c16(c):
    c.self_test("ParamGenMC")                  # the published tables
    run(c, "C16", "round numbers")


def c17(c):
    c.self_test("KeccakSelfTest")
    run(c, "C17", "transcript")
    exe = build_consts(c)
    if exe:
        n = c.cov["events_validated"]
        run(c, "CONSTS", "round constants", exe)
        c.cov["round_constant_matrices"] = c.cov["events_validated"] - n
