"""Shared driver code: builds harnesses from /repo, runs them and TLC, writes
evidence and verdicts.  A check exits 0 (held), 1 (VIOLATION printed) or 2 (tool
error)."""
import literals
import fcntl, filecmp, hashlib, json, os, re, shutil, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
P = 0x12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001


class ToolError(Exception):
    pass


class ImplCrash(Exception):
    """the code under test killed or hung the harness process"""
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = literals.extra(self)
        self.assumptions = []
        self.violations = []
        self.known = []

    # -- building ---------------------------------------------------------
    def build(self, crate, features, bins, release=False, target=None, extra=(), name=None, src=None, settings={}):
        """cargo build of /verif/harness/<crate>; returns {bin: path}"""
        src = src or os.path.join(VERIF, "harness", crate)
        target = os.path.join(BUILD, target or "t-" + crate)
        os.makedirs(target, exist_ok=True)
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
                   RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
        env["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + env["PATH"]
        env.update(settings)
        cmd = ["cargo", "build", "--offline", "--manifest-path", src + "/Cargo.toml"]
        if features:
            cmd += ["--features", features]
        if release:
            cmd += ["--release"]
        for b in bins:
            cmd += ["--bin", b]
        cmd += list(extra)
        t = time.time()
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("build of %s [%s] failed:\n%s" % (crate, features, r.stdout[-4000:]))
        self.log("built %s [%s]%s in %.1fs" % (crate, features, " release" if release else "", time.time() - t))
        d = os.path.join(target, "release" if release else "debug")
        out = {}
        for b in bins:
            # private copy: another build may replace the one in the target dir
            p = os.path.join(self.work, name or "%s-%s-%s" % (b, re.sub(r"\W", "_", features or "x"), "r" if release else "d"))
            shutil.copy2(os.path.join(d, b), p)
            out[b] = p
        return out

    def build_both(self, crate, features, bins, others, **k):
        """the binaries of a debug build and those of an optimized one with other features
        (None where that cannot be built)"""
        from concurrent.futures import ThreadPoolExecutor
        def second():
            try:
                return self.build(crate, others, bins, release=True, target="t-other-" + crate, **k)
            except ToolError as e:
                self.log("note: no optimized build: %s" % str(e)[-600:])
                self.cov["optimized_build"] = "not built"
                return None
        with ThreadPoolExecutor(2) as ex:
            b = ex.submit(second)
            return self.build(crate, features, bins, **k), b.result()

    def again(self, exe, files, **k):
        """record the same commands with another build's harness; where its record differs
        it is put beside the others, to be judged like them (file names end in _<number>)"""
        if not exe or not files:
            return []
        side = []
        for f in files:
            side.append("%s/again_%d" % (self.work, len(side) + 1))
            shutil.copyfile(f, side[-1])
        self.harness_many(exe, side, **k)
        out, at = [], max(int(f.rsplit("_", 1)[1]) for f in files)
        for f, s in zip(files, side):
            if filecmp.cmp(f + ".ndjson", s + ".ndjson", shallow=False):
                os.remove(s + ".ndjson")
                continue
            at += 1
            out.append("%s_%d" % (f.rsplit("_", 1)[0], at))
            os.replace(s, out[-1])
            os.replace(s + ".ndjson", out[-1] + ".ndjson")
        self.cov["records_of_optimized_build"] = self.cov.get("records_of_optimized_build", 0) + len(files)
        self.cov["records_of_optimized_build_judged_apart"] = self.cov.get("records_of_optimized_build_judged_apart", 0) + len(out)
        self.log("recorded again with the optimized build: %d of %d records differ" % (len(out), len(files)))
        return out

    # -- running ----------------------------------------------------------
    def crashed(self, exe, rc, cmds, err, env=None, args=()):
        """a harness died: SIGKILL is the environment's, anything else the code's"""
        if rc in (-9, 137):
            raise ToolError("harness %s was killed: %s" % (exe, err[-500:]))
        # find the command it dies on by running again without output buffering
        e = dict(env or os.environ, VFLUSH="1")
        try:
            r = subprocess.run([exe] + list(args), input=cmds, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200, env=e)
            n = len(r.stdout.splitlines())
            lines = cmds.splitlines()
            last = lines[n] if r.returncode and n < len(lines) else "?"
        except subprocess.TimeoutExpired:
            last = "?"
        if "HARNESS" in err:
            raise ToolError("harness %s: %s" % (exe, err[-2000:]))
        raise ImplCrash("harness process ended with %d on command: %s" % (rc, last[:300]), {"exit": rc, "command": last, "stderr": err[-1500:]})

    def harness(self, exe, commands, timeout=700, env=None, args=()):
        """commands: iterable of strings; returns list of output lines"""
        cmds = "\n".join(commands) + "\n"
        timeout *= 8 if THOROUGH else 1
        try:
            r = subprocess.run([exe] + list(args), input=cmds, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s timed out" % exe)
        if r.returncode != 0:
            self.crashed(exe, r.returncode, cmds, r.stderr, env, args)
        return r.stdout.splitlines()

    def harness_many(self, exe, files, suffix=".ndjson", timeout=700, par=8, env=None):
        """run the harness on several command files in parallel; outputs beside them"""
        todo, running, outs = list(files), [], {}
        end = time.time() + timeout * (8 if THOROUGH else 1)
        while todo or running:
            while todo and len(running) < par:
                f = todo.pop(0)
                o = f + suffix
                p = subprocess.Popen([exe], stdin=open(f), stdout=open(o, "w"), stderr=open(f + ".err", "w"), env=env)
                running.append((f, o, p))
            for x in list(running):
                if x[2].poll() is not None:
                    running.remove(x)
                    if x[2].returncode != 0:
                        for y in running:
                            y[2].kill()
                        self.crashed(exe, x[2].returncode, open(x[0]).read(), open(x[0] + ".err").read(), env)
                    outs[x[0]] = x[1]
            if time.time() > end:
                for x in running:
                    x[2].kill()
                raise ToolError("harness timeout")
            time.sleep(0.02)
        return outs

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, env=None, cfg=None, workers=8, timeout=800, xmx="8g", count=True, args=(), keep=False):
        """returns dict(ok, violated, states, distinct, out)"""
        timeout *= 8 if THOROUGH else 1
        classes()
        e = dict(os.environ)
        e.update(SPECDIR=SPEC, VERIF_SEED=str(SEED), VERIF_TIER=TIER, EXTRA=self.extra, PROFILE="full", OUT=self.work, WORK=self.work)
        e.update(env or {})
        meta = os.path.join(self.work, "meta-%s-%d" % (module, time.time_ns()))
        cmd = ["java", "-Xss512m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + self.work, "-cp",
               "%s/tla2tools.jar:%s/CommunityModules-deps.jar:%s/classes" % (TLA, TLA, BUILD), "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-fp", "1", "-seed", str(SEED),
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC %s timed out after %ds" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = "\n".join(l for l in r.stdout.splitlines() if not l.startswith(("\tat ", "Loading ", "Semantic ", "Linting ", "Parsing ", "Linting")))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        res = {"rc": r.returncode, "out": out, "states": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
               "wall": time.time() - t}
        if r.returncode in (0, 12, 13) or (r.returncode == 10 and "POSTCONDITION" in out.upper()):
            res["ok"] = r.returncode == 0
        else:
            raise ToolError("TLC %s failed (exit %d):\n%s" % (module, r.returncode, out[-6000:]))
        if count:
            self.cov["states"] += res["distinct"]
            self.cov["transitions"] += res["states"]
        self.log("TLC %s: %s, %d distinct states, %.1fs" % (module, "ok" if res["ok"] else "VIOLATED", res["distinct"], res["wall"]))
        return res

    def self_test(self, module, always=False):
        """the specification's own operators against their definitions"""
        if (THOROUGH or always) and not self.tlc(module)["ok"]:
            raise ToolError("%s: the specification disagrees with itself" % module)

    # -- verdicts -----------------------------------------------------------
    def log(self, s):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, s), flush=True)

    def sample(self, x, limit=6):
        if len(self.cov["samples"]) < limit:
            s = json.dumps(x)
            self.cov["samples"].append(x if len(s) < 1500 else s[:1500] + "...")

    def violation(self, what, data):
        self.violations.append({"what": what, "data": data})

    def finish(self):
        self.cov.setdefault("samples", [])
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            rp = os.path.join(VERIF, ".work", self.prop + ".replay.json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER, "violations": self.violations[:20]}, f, indent=1)
            for v in self.violations[:5]:
                print("  " + v["what"][:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            return 1
        self.log("held")
        return 0


_classes = False


def classes():
    """compile the TLC module overrides (once)"""
    global _classes
    if _classes:
        return
    d = os.path.join(BUILD, "classes")
    os.makedirs(d, exist_ok=True)
    srcs = sorted(f for f in os.listdir(SPEC) if f.endswith(".java"))
    h = hashlib.sha256(b"".join(open(os.path.join(SPEC, f), "rb").read() for f in srcs)).hexdigest()
    stamp = os.path.join(d, "stamp")
    with open(os.path.join(BUILD, "classes.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (os.path.exists(stamp) and open(stamp).read() == h):
            r = subprocess.run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", d] + [os.path.join(SPEC, f) for f in srcs],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise ToolError("javac: " + r.stdout)
            open(stamp, "w").write(h)
    _classes = True


def main(run, prop, level):
    try:
        c = Check(prop, level)
        try:
            run(c)
        except ImplCrash as e:
            c.violation(e.what, e.data)
        rc = c.finish()
    except ToolError as e:
        print("TOOL ERROR (%s): %s" % (prop, e), flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
