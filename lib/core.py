"""Machinery shared by the checks: building the harness from /repo's working
tree, running TLC on generated configurations, replaying what TLC prints into
the implementation, evidence files and verdicts."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
QUICK = TIER != "thorough"
TLC_JAVA = ["java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss64m",
            "-cp", "/opt/veriftools/tla/tla2tools.jar:"
                   "/opt/veriftools/tla/CommunityModules-deps.jar",
            "tlc2.TLC"]


class CheckError(Exception):
    """The check itself could not be carried out."""


def sh_env():
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    return env


def tup(s):
    """A text as a TLA+ tuple of code points"""
    if isinstance(s, str):
        s = [ord(c) for c in s]
    return "<<" + ",".join(str(c) for c in s) + ">>"


def tset(xs):
    return "{" + ", ".join(sorted({tup(x) for x in xs})) + "}"


class Check:
    def __init__(self, pid, cats):
        self.pid = pid
        self.cats = cats
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.cases = 0
        self.tally = {}
        self.samples = []
        self.violations = []      # (category, detail, replay payload)
        self.known = []
        self.assumptions = []
        self.stages = []
        self.known_findings = load_known(pid)

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, msg),
              flush=True)

    # ---------------------------------------------------------------- build
    def build(self, crate, bin_name=None):
        """Builds a harness crate against /repo's current tree"""
        d = os.path.join(VERIF, crate)
        log = os.path.join(self.work, "build-%s.log" % crate)
        with open(log, "w") as f:
            r = subprocess.run(["cargo", "build", "--offline"], cwd=d,
                               stdout=f, stderr=subprocess.STDOUT,
                               env=sh_env())
        if r.returncode != 0:
            self.log("building %s failed, see %s" % (crate, log))
            with open(log) as f:
                sys.stdout.write(f.read()[-3000:])
            lib = subprocess.run(
                ["cargo", "build", "--offline", "-p", "knuffel"], cwd=d,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                env=sh_env())
            if lib.returncode == 0:
                raise HarnessDoesNotBuild(crate, log)
            raise CheckError("/repo does not build")
        self.log("built %s" % crate)
        return os.path.join(d, "target", "debug", bin_name or crate_bin(crate))

    # ------------------------------------------------------------------ TLC
    def module(self, name, extends, defs, cfg):
        """Writes a model-checking module and its configuration"""
        d = os.path.join(self.work, name)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, name + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n" % (name, extends))
            for k, v in defs.items():
                f.write("MC_%s == %s\n" % (k, v))
            f.write("====\n")
        with open(os.path.join(d, name + ".cfg"), "w") as f:
            if defs:
                f.write("CONSTANTS\n")
            for k in defs:
                f.write("  %s <- MC_%s\n" % (k, k))
            f.write(cfg)
        return d

    def tlc_replay(self, name, d, replay_cmd, timeout=800, workers=8,
                   tlc_args=()):
        """Runs TLC and pipes the behaviours it prints into the harness"""
        log = os.path.join(d, "tlc.log")
        cmd = [TLC_JAVA[0], "-Djava.io.tmpdir=" + d] + TLC_JAVA[1:] + [
                          "-workers", str(workers), "-nowarning",
                          "-config", name + ".cfg", *tlc_args, name + ".tla"]
        env = sh_env()
        tlc = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=env)
        har = subprocess.Popen(replay_cmd + ["--log", log], stdin=tlc.stdout,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, cwd=d, env=env)
        tlc.stdout.close()
        try:
            out, err = har.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            tlc.kill()
            har.kill()
            raise CheckError("%s: no end within %d s" % (name, timeout))
        hrc = har.returncode
        if hrc != 0:
            tlc.kill()
        trc = tlc.wait()
        out = out.decode("utf-8", "replace")
        summary = None
        for line in out.splitlines():
            if line.startswith("MISMATCH "):
                self.mismatch(name, json.loads(line[9:]))
            elif line.startswith("SUMMARY "):
                summary = json.loads(line[8:])
        if hrc != 0 and not (summary and summary.get("hang")):
            # the implementation took the whole process down
            tail = err.decode("utf-8", "replace")[-2000:]
            if hrc < 0 or "overflow" in tail:
                self.mismatch(name, {
                    "cat": "crash", "case": "",
                    "detail": "process ended with %d: %s" % (hrc, tail)})
                return
            raise CheckError("%s: harness failed (%d): %s" % (name, hrc, tail))
        tlclog = open(log, errors="replace").read() if os.path.exists(log) \
            else ""
        if not (summary and summary.get("hang")):
            if trc != 0 or "Model checking completed. No error" not in tlclog:
                i = tlclog.find("Error:")
                raise CheckError("%s: TLC reports an error in the model "
                                 "(rc %s):\n%s" % (name, trc,
                                                   tlclog[max(0, i-200):][:3000]))
            m = re.search(r"(\d+) states generated, (\d+) distinct states",
                          tlclog)
            gen, dist = int(m.group(1)), int(m.group(2))
        else:
            gen = dist = 0
        self.account(name, gen, dist, summary)

    def account(self, name, gen, dist, summary):
        self.states += dist
        self.transitions += gen
        self.cases += summary.get("cases", 0)
        for k, v in summary.items():
            if isinstance(v, int) and k != "cases":
                self.tally[k] = self.tally.get(k, 0) + v
        # the later, longer samples say more
        self.samples += summary.get("samples", [])[-4:]
        self.stages.append({"stage": name, "states": dist,
                            "transitions": gen,
                            "replayed": summary.get("cases", 0)})
        self.log("%s: %d states, %d transitions, %d cases replayed, "
                 "%d disagreements" % (name, dist, gen,
                                       summary.get("cases", 0),
                                       summary.get("violations", 0)))

    # ------------------------------------------------------------- verdicts
    def mismatch(self, stage, rec):
        self.violations.append((stage, rec))

    def finish(self, level="model_checking", extra=None):
        unexplained = []
        for stage, rec in self.violations:
            for kf in self.known_findings:
                if kf["match"] in stage + ": " + rec["detail"]:
                    if kf not in self.known:
                        self.known.append(kf)
                    break
            else:
                unexplained.append((stage, rec))
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.cases,
            "samples": self.samples[:24] or ["(none)"],
            "stages": self.stages,
            "outcomes": {k: v for k, v in self.tally.items()
                         if not k.startswith("bad.")},
        }
        if extra:
            cov.update(extra)
        ev = {
            "property": self.pid, "tier": "quick" if QUICK else "thorough",
            "seed": SEED, "level": level, "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(unexplained),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        for kf in self.known_findings:
            if kf.get("always") or kf in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, kf["what"]))
        if unexplained:
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.pid + ".json")
            with open(path, "w") as f:
                json.dump([{"stage": s, **r} for s, r in unexplained[:50]], f,
                          indent=1)
            for s, r in unexplained[:5]:
                print("  %s: %s: %s" % (s, r["cat"], r["detail"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if self.cases == 0:
            raise CheckError("nothing was replayed")
        self.log("held on everything explored (%d cases)" % self.cases)
        return 0


class HarnessDoesNotBuild(Exception):
    def __init__(self, crate, log):
        super().__init__(crate)
        self.crate = crate
        self.log = log


def crate_bin(crate):
    return {"harness": "kharness", "dharness": "dharness"}.get(crate, crate)


def load_known(pid):
    """Entries `known: property=<id> match=<<text>> <what>`"""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) match=<<(.*?)>> (.*)", line)
            if m and m.group(1) == pid:
                res.append({"match": m.group(2), "what": m.group(3).strip(),
                            "always": True})
    return res
