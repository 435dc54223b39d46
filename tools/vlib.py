"""Common part of the checks: building the drivers from /repo, running TLC, validating traces, evidence."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check could not give an answer."""


def sh(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -999, out


def build(drivers):
    """Builds the drivers from /repo's working tree; returns {name: path}."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mk = ["make", "-s", "-f", os.path.join(V, "harness/Makefile"), "REPO=" + REPO, "B=" + B]
        # an object of a source that no longer compiles must not be linked
        rc, out = sh(mk + ["-k", "-j%d" % NCPU, "objs"], 600)
        if rc != 0:
            bad = re.findall(r"\*\*\* \[[^\]]*?([^\s\]]+\.o)\]", out)
            for o in bad:
                if os.path.exists(o):
                    os.unlink(o)
            print("note: not everything compiled: %s" % bad, file=sys.stderr)
        rc, out2 = sh(mk + ["lib"], 100)
        if rc != 0:
            raise CheckError("cannot build the library: " + out2[-2000:])
        rc, out3 = sh(mk + ["-j%d" % NCPU] + [os.path.join(B, "drv", d) for d in drivers], 600)
        if rc != 0:
            raise CheckError("cannot build the drivers:\n" + out[-3000:] + out3[-3000:])
    return {d: os.path.join(B, "drv", d) for d in drivers}


class TlcResult:
    pass


def tlc(spec, cfg, env=None, workers=1, timeout=800, extra=(), heap="2g"):
    """spec: path of a module under /verif/spec. Returns counters and the verdict."""
    d = os.path.dirname(os.path.join(V, "spec", spec))
    m = os.path.basename(spec)
    meta = os.path.join(B, "tlc", "%d-%d-%s" % (os.getpid(), random.SystemRandom().getrandbits(40), m))
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-XX:ParallelGCThreads=2",
           "-DTLA-Library=" + os.pathsep.join(os.path.join(V, "spec", x) for x in ("common", "pure")), "-cp", JARS, "tlc2.TLC", "-metadir", meta,
           "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg] + list(extra) + [m]
    t = time.time()
    rc, out = sh(cmd, timeout, cwd=d, env=env)
    shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.rc, r.out, r.wall = rc, out, time.time() - t
    g = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r.generated, r.distinct = (int(g[-1][0]), int(g[-1][1])) if g else (0, 0)
    g = re.findall(r"depth of the complete state graph search is (\d+)", out)
    r.depth = int(g[-1]) if g else 0
    r.ok = rc == 0 and "No error has been found" in out
    r.violated = re.findall(r"(?:Invariant|Property) (\S+) is violated|Temporal properties were violated", out)
    return r


def model_check(spec, cfg, workers=NCPU, timeout=600, heap="8g"):
    r = tlc(spec, cfg, workers=workers, timeout=timeout, heap=heap)
    if not r.ok:
        # the model does not depend on /repo: a failure here is an error of the check
        raise CheckError("model %s/%s: not verified\n%s" % (spec, cfg, r.out[-3000:]))
    return r


def simulate(spec, cfg, num, depth, seed, timeout=200, env=None):
    """Behaviours of a specification: every line the specification prints with the tag BEHAVIOUR."""
    r = tlc(spec, cfg, timeout=timeout, extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
            env=env)
    res, seen = [], set()
    for line in r.out.splitlines():
        if line.startswith('"BEHAVIOUR'):
            # (the last states of one behaviour are printed in all their variants)
            k = line[:len(line) * 4 // 5]
            if k not in seen:
                seen.add(k)
                res.append(json.loads(json.loads(line)[len("BEHAVIOUR"):]))
    if not res:
        raise CheckError("no behaviours from %s\n%s" % (spec, r.out[-3000:]))
    return res


class Scenario(dict):
    pass


def read_lines(fn):
    with open(fn, errors="replace") as f:
        return [l for l in f.read().split("\n") if l]


class Run:
    """One run of a check of one property."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.rnd = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.evs = {}
        self.samples = []
        self.models = []
        self.notes = {}
        self.violations = []
        self.known_hit = []
        self.tenv = {}
        self.assumptions = []
        self.dir = os.path.join(B, "run", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        kf = os.path.join(V, "known_findings.json")
        self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop] if os.path.exists(kf) else []

    # -- models
    def model(self, spec, cfg, **kw):
        r = model_check(spec, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"spec": spec, "cfg": cfg, "distinct_states": r.distinct, "transitions": r.generated,
                            "depth": r.depth, "wall_s": round(r.wall, 1)})
        return r

    # -- traces
    def drive(self, exe, scenarios, name, timeout=300, args=(), env=None):
        """Runs the driver on the scenarios; returns the trace lines. None when it crashed."""
        sf = os.path.join(self.dir, name + ".scn")
        tf = os.path.join(self.dir, name + ".trace")
        with open(sf, "w") as f:
            for s in scenarios:
                f.write(json.dumps(s) + "\n")
        if os.path.exists(tf):
            os.unlink(tf)
        rc, out = sh([exe, sf, tf] + list(args), timeout, cwd=self.dir, env=env)
        lines = read_lines(tf) if os.path.exists(tf) else []
        return rc, out, lines

    def conform(self, exe, scenarios, spec, cfg, chunks=None, timeout=600, key=None, args=(), env=None, max_rej=6,
                sample=True, tenv=None):
        """Runs scenarios through the real code and the traces through the trace specification."""
        self.tenv = tenv or {}
        chunks = chunks or min(NCPU, max(1, len(scenarios)))
        parts = [scenarios[i::chunks] for i in range(chunks)]
        parts = [p for p in parts if p]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for rej in ex.map(lambda a: self._part(exe, a[1], spec, cfg, "%s-%d" % (os.path.basename(spec), a[0]), timeout,
                                                   args, env, max_rej, sample and a[0] == 0), enumerate(parts)):
                for r in rej:
                    self._judge(r, exe, spec, cfg, timeout, key, args, env)

    def _part(self, exe, scenarios, spec, cfg, name, timeout, args, env, max_rej, sample):
        rejected = []
        todo = list(scenarios)
        while todo:
            rc, out, lines = self.drive(exe, todo, name, timeout, args, env)
            bad_last = None
            if rc != 0:
                # crash or hang: the scenario under way is the last one started
                starts = [i for i, l in enumerate(lines) if '"o":"start"' in l]
                if not starts:
                    bad_last = 0
                else:
                    bad_last = len(starts) - 1
                    lines = lines[:starts[-1]]
            n, why = self._validate(lines, spec, cfg, name, timeout)
            if n < len(lines):
                s = -1
                for i in range(0, n + 1):
                    if '"o":"start"' in lines[i]:
                        s += 1
                rejected.append({"scenario": todo[max(s, 0)], "event": lines[n], "why": why, "at": n})
                self._count(lines[:n])
                todo = todo[:max(s, 0)] + todo[max(s, 0) + 1:]
                if len(rejected) >= max_rej:
                    break
                # the scenarios before were accepted
                todo = todo[max(s, 0):]
                continue
            self._count(lines)
            if sample and lines:
                self.samples.append({"scenario": _short(todo[0]), "trace_head": lines[:6]})
            if bad_last is not None:
                rejected.append({"scenario": todo[bad_last], "event": "driver ended with %d: %s" % (rc, out[-600:]),
                                 "why": "crash", "at": len(lines)})
                todo = todo[bad_last + 1:]
                if len(rejected) >= max_rej:
                    break
                continue
            break
        return rejected

    def _count(self, lines):
        self.events += len(lines)
        for l in lines:
            m = re.search(r'"o":"(\w+)"', l)
            if m:
                self.evs[m.group(1)] = self.evs.get(m.group(1), 0) + 1
                if m.group(1) == "start":
                    self.traces += 1

    def _validate(self, lines, spec, cfg, name, timeout):
        """How many leading events the specification accepts."""
        if not lines:
            return 0, ""
        tf = os.path.join(self.dir, name + ".val")
        with open(tf, "w") as f:
            f.write("\n".join(lines) + "\n")
        r = tlc(spec, cfg, env=dict(self.tenv, TRACE=tf), timeout=timeout, heap="3g")
        self.states += r.distinct
        self.transitions += r.generated
        if r.depth == 0 or "Model checking completed" not in r.out:
            # an evaluation error in the middle of a trace: the value is outside what the specification can take
            g = re.findall(r"\bl = (\d+)", r.out)
            if ("Error: " in r.out) and g:
                return int(g[-1]) - 1, "evaluation: " + r.out[-1500:]
            raise CheckError("TLC on a trace of %s: %s" % (spec, r.out[-3000:]))
        return r.depth - 1, r.out[-600:]

    def _judge(self, rej, exe, spec, cfg, timeout, key, args, env):
        # once more, alone: only what repeats is reported
        rc, out, lines = self.drive(exe, [rej["scenario"]], "again", timeout, args, env)
        if rc == 0:
            n, why = self._validate(lines, spec, cfg, "again", timeout)
            if n >= len(lines):
                self.notes.setdefault("not_repeated", []).append(rej["event"][:300])
                if rej["why"] == "crash":
                    return
                print("note: a rejection did not repeat: %s" % rej["event"][:300])
                return
            ev = lines[n]
        else:
            ev = rej["event"]
            n = len(lines)
            if rej["why"] != "crash":
                ev = "driver ended with %d" % rc
        k = key(rej["scenario"], ev) if key else None
        for f in self.known:
            if k is not None and f.get("key") == k:
                self.known_hit.append(f)
                return
        self.violation({"scenario": rej["scenario"], "spec": spec, "cfg": cfg, "rejected_event": ev, "at": n,
                        "trace": lines[max(0, n - 60):n + 1],
                        "how": "%s SCENARIO.ndjson TRACE.ndjson, then TLC with %s on the trace" % (exe, cfg)})

    def violation(self, what):
        d = os.path.join(B, "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(what, sort_keys=True, default=str).encode()).hexdigest()[:10]
        fn = os.path.join(d, "%s-%s.json" % (self.prop, h))
        with open(fn, "w") as f:
            json.dump(what, f, indent=1, default=str)
        self.violations.append(fn)

    def finish(self, technique_note=None, extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:4] or ["none"],
               "trace_events": self.events, "events_by_kind": self.evs, "models": self.models}
        cov.update(extra or {})
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in {json.dumps(k, sort_keys=True) for k in self.known_hit}:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, json.loads(k)["what"]))
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.violations:
            for v in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.prop, v))
            return 1
        print("OK property=%s traces=%d events=%d states=%d in %.0f s" % (self.prop, self.traces, self.events, self.states,
                                                                       time.time() - self.t0))
        return 0


def _short(s):
    t = json.dumps(s)
    return s if len(t) < 3000 else t[:3000] + "..."


def main(prop, run, level="model_checking"):
    r = Run(prop, level)
    try:
        extra = run(r)
        sys.exit(r.finish(extra=extra))
    except CheckError as e:
        print("ERROR property=%s: %s" % (prop, e))
        shutil.rmtree(r.dir, ignore_errors=True)
        sys.exit(2)
