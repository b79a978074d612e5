#!/usr/bin/env python3
"""Decide one property: check.py <ID> quick|thorough

exit 0  the property held on everything explored (KNOWN-FINDING lines possible)
exit 1  a VIOLATION line was printed
exit 2  the machinery itself failed (no answer)
"""
import json, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from config import PROPS  # noqa: E402

SEED = os.environ.get("VERIF_SEED", "1")
CORES = 8


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". %s/env.sh && env -0" % HERE], capture_output=True, check=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode().split("=", 1)
            e[k] = v
    for k in ("TDCCH_APPROX_THRESHOLD", "TDCCH_APPROX", "TRAFFIC_MAX_QUERY_TIME"):
        e.pop(k, None)
    return e


def build(e, pkgs=("harness",)):
    for p in pkgs:
        if p == "harness":
            cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", HERE + "/harness/Cargo.toml"]
        elif p == "server":
            cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", "/repo/Cargo.toml", "-p", "server"]
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise ToolError("build failed:\n" + r.stdout.decode(errors="replace")[-4000:])


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.work = "%s/work/%s-%s-%d" % (HERE, pid, tier, os.getpid())
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = HERE + "/work/replay"
        os.makedirs(self.replays, exist_ok=True)
        self.e = env()
        self.states = self.trans = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.violations = []
        self.known = []
        self.stages = []
        self.findings = self.load_findings()

    def load_findings(self):
        res = []
        p = HERE + "/KNOWN_FINDINGS.jsonl"
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("{"):
                    f = json.loads(line)
                    if f["property"] == self.pid:
                        res.append(f)
        return res

    def violation(self, name, data, text):
        path = "%s/%s-%s.json" % (self.replays, self.pid, name)
        with open(path, "w") as f:
            json.dump(data, f)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("  " + text[:600])
        sys.stdout.flush()

    # -- recording executions of the real code --------------------------------
    def record(self, st):
        fam = st["fam"]
        count = st[self.tier]
        budget = st.get("budget", {"quick": 150, "thorough": 1500})[self.tier]
        procs = []
        for s in range(CORES):
            out = "%s/%s.%d.json" % (self.work, fam, s)
            cmd = [self.e["CARGO_TARGET_DIR"] + "/debug/harness", fam, "--seed", SEED, "--count", str(count), "--shard", str(s),
                   "--shards", str(CORES), "--tier", self.tier, "--limit", str(st.get("limit", 120)), "--budget", str(budget), "--out", out]
            if st.get("input"):
                cmd += ["--input", st["input"]]
            en = dict(self.e)
            en.setdefault("RAYON_NUM_THREADS", "4")
            procs.append((s, out, subprocess.Popen(cmd, env=en, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits)))
        ok = True
        for s, out, p in procs:
            try:
                o, _ = p.communicate(timeout=budget + 600)
            except subprocess.TimeoutExpired:
                for q in procs:
                    q[2].kill()
                raise ToolError("recording %s timed out" % fam)
            o = o.decode(errors="replace")
            if p.returncode == 0 and "DONE" in o:
                continue
            cur = None
            if os.path.exists(out + ".cur"):
                cur = open(out + ".cur").read()
            what = {"property": self.pid, "family": fam, "seed": SEED, "episode": cur, "exit": p.returncode,
                    "rerun": "harness %s --seed %s --count %s --only %s --tier %s --out /tmp/x.json" % (fam, SEED, count, cur, self.tier)}
            if "HANG" in o or p.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGILL, -signal.SIGBUS, -signal.SIGFPE):
                self.violation("%s-crash-%s" % (fam, cur), what, "the code under test %s in episode %s of %s" % ("did not terminate" if "HANG" in o else "crashed (signal %d)" % -p.returncode, cur, fam))
                ok = False
            else:
                raise ToolError("harness %s shard %d failed: rc=%s cur=%s %s" % (fam, s, p.returncode, cur, o[-300:]))
        return ok, ["%s/%s.%d.json" % (self.work, fam, s) for s in range(CORES)]

    # -- TLC ------------------------------------------------------------------
    def tlc(self, spec, cfg, extra_env=None, timeout=3000, args=(), deadlock_ok=False):
        md = "%s/md-%d" % (self.work, time.time_ns())
        en = dict(self.e)
        en["TLC_MEM"] = "12g"
        en.update(extra_env or {})
        cmd = [HERE + "/tlc.sh", "-workers", str(CORES), "-metadir", md, "-config", HERE + "/spec/" + cfg]
        if deadlock_ok:
            cmd.append("-deadlock")
        cmd += list(args) + [HERE + "/spec/" + spec]
        log = "%s/tlc-%d.log" % (self.work, time.time_ns())
        with open(log, "wb") as f:
            p = subprocess.Popen(cmd, env=en, cwd=HERE + "/spec", stdout=f, stderr=subprocess.STDOUT)
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                raise ToolError("TLC timed out on " + spec)
        shutil.rmtree(md, ignore_errors=True)
        return open(log, errors="replace").read()

    @staticmethod
    def stats(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        return int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", ""))

    def validate(self, st, files):
        """TLC decides whether the recorded behaviours are behaviours of the spec."""
        lines = []
        for f in files:
            with open(f) as h:
                lines += [x for x in h.read().split("\n") if x]
        if not lines:
            raise ToolError("no episodes recorded for %s" % st["fam"])
        spec = st["spec"]
        total = len(lines)
        chunk = st.get("chunk", 1500)
        nev = 0
        pos = 0
        while pos < len(lines):
            part = lines[pos:pos + chunk]
            pos += chunk
            while part:
                tr = self.work + "/trace.json"
                with open(tr, "w") as f:
                    f.write("\n".join(part) + "\n")
                out = self.tlc(spec + ".tla", spec + ".cfg", {"TRACE": tr})
                if "Model checking completed. No error has been found." in out:
                    d, g = self.stats(out)
                    self.states += d
                    self.trans += g
                    break
                if re.search(r"OutOfMemory|StackOverflow|Java heap|GC overhead", out):
                    raise ToolError("TLC resources: " + out[-1500:])
                eps = re.findall(r"/\\ ep = (\d+)", out)
                ls = re.findall(r"/\\ l = (\d+)", out)
                stuck = "Deadlock reached" in out
                evalerr = "Error: Evaluating" in out or "TLC threw an unexpected exception" in out or "Error: In evaluation" in out or "Attempted to" in out or "The first argument of Assert" in out
                inv = re.search(r"Error: (Invariant|Action property|Temporal propert).*violated", out)
                if not eps or not ls or not (stuck or evalerr or inv):
                    raise ToolError("TLC on %s: %s" % (spec, out[-3000:]))
                k, l = int(eps[-1]), int(ls[-1])
                epi = json.loads(part[k - 1])
                ev = epi["events"][l - 1] if l <= len(epi["events"]) else None
                # reported under the property only if the finding is not a listed one
                known = self.match_known(epi, ev)
                if known:
                    if known not in self.known:
                        self.known.append(known)
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, known["what"]))
                    del part[k - 1]
                    continue
                self.violation("%s-%s" % (st["fam"], epi["id"]),
                               {"property": self.pid, "family": st["fam"], "spec": spec, "seed": SEED, "tier": self.tier, "episode": epi["id"], "event": l, "rejected": ev,
                                "verdict": "deadlock" if stuck else ("invariant" if inv else "evaluation"), "trace": epi,
                                "rerun": "harness %s --seed %s --count %s --only %s --tier %s --out x.json; TRACE=x.json tlc.sh -config spec/%s.cfg spec/%s.tla" % (st["fam"], SEED, st[self.tier], epi["id"], self.tier, spec, spec)},
                               "%s episode %s event %d is not a step of %s: %s" % (st["fam"], epi["id"], l, spec, json.dumps(ev)[:400]))
                return False
        self.traces += total
        for x in lines:
            nev += x.count('"op":')
        self.events += nev
        for x in (lines[0], lines[len(lines) // 2], lines[-1]):
            ep_ = json.loads(x)
            self.samples.append({"family": st["fam"], "episode": ep_["id"], "events": ep_["events"][:3]})
        self.stages.append({"family": st["fam"], "spec": spec, "episodes": total, "events": nev})
        return True

    def match_known(self, epi, ev):
        for f in self.findings:
            m = f.get("match", {})
            if m.get("family") != epi.get("fam"):
                continue
            if ev is None:
                continue
            if all(ev.get(k) == v for k, v in m.get("event", {}).items()) and all(epi.get(k) == v for k, v in m.get("episode", {}).items()):
                return f
        return None

    # -- exhaustive check of the specification itself --------------------------
    def model(self, mo):
        cfg = mo.get(self.tier) or mo.get("quick")
        if cfg is None:
            return True
        t = time.time()
        out = self.tlc(mo["spec"] + ".tla", cfg + ".cfg", timeout=mo.get("timeout", 2400), deadlock_ok=not mo.get("deadlock", False))
        if "Model checking completed. No error has been found." not in out:
            raise ToolError("the specification %s (%s) does not satisfy its own properties: %s" % (mo["spec"], cfg, out[-2500:]))
        d, g = self.stats(out)
        self.states += d
        self.trans += g
        self.models.append({"spec": mo["spec"], "cfg": cfg, "distinct": d, "generated": g, "wall_s": round(time.time() - t, 1)})
        return True

    # -- behaviours generated by TLC, replayed into the code -------------------
    def generate(self, ge):
        cfg = ge.get(self.tier) or ge["quick"]
        out = self.tlc(ge["spec"] + ".tla", cfg + ".cfg", timeout=ge.get("timeout", 2400), deadlock_ok=True, args=ge.get("args", []))
        seqs = re.findall(r'^"BEH (.*)"$', out, re.M)
        if "Error:" in out or not seqs:
            raise ToolError("behaviour generation %s failed: %s" % (ge["spec"], out[-2000:]))
        d, g = self.stats(out)
        self.states += d
        self.trans += g
        p = "%s/%s.beh" % (self.work, ge["spec"])
        n = 0
        with open(p, "w") as f:
            for s in seqs:
                f.write(s.replace('\\"', '"') + "\n")
                n += 1
        st = dict(ge["replay"])
        st["input"] = p
        st["quick"] = st["thorough"] = n
        self.models.append({"spec": ge["spec"], "cfg": cfg, "behaviours": n, "distinct": d, "generated": g})
        return st

    def run(self):
        cfg = PROPS[self.pid]
        t0 = time.time()
        build(self.e, cfg.get("build", ("harness",)))
        ok = True
        for st in cfg.get("traces", []):
            if ok:
                good, files = self.record(st)
                ok = good and self.validate(st, files)
                for f in files:
                    if os.path.exists(f):
                        os.remove(f)
        for ge in cfg.get("generate", []):
            if ok:
                st = self.generate(ge)
                good, files = self.record(st)
                ok = good and self.validate(st, files)
        for ex in cfg.get("external", []):
            if ok:
                ok = ex(self)
        for mo in cfg.get("models", []):
            if ok:
                self.model(mo)
        wall = time.time() - t0
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(SEED), "level": cfg["level"],
            "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces, "events_checked": self.events, "samples": self.samples,
                         "stages": self.stages, "models": self.models},
            "wall_s": round(wall, 1), "violations": len(self.violations),
            "known_findings": [f["what"] for f in self.known],
        }
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (HERE, self.pid), "w") as f:
            json.dump(ev, f, indent=1)
        if ok:
            print("OK property=%s tier=%s episodes=%d events=%d states=%d wall=%.0fs" % (self.pid, self.tier, self.traces, self.events, self.states, wall))
        return 0 if ok and not self.violations else 1


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    r = Run(pid, tier)
    try:
        rc = r.run()
    except ToolError as x:
        print("TOOL-ERROR %s: %s" % (pid, x))
        rc = 1 if r.violations else 2
    finally:
        shutil.rmtree(r.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
