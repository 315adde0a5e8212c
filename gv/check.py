"""python3 -m gv.check C01 [--tier quick|thorough]: decides one property."""
import argparse, hashlib, importlib, json, os, random, sys, time, traceback
from . import common
from .common import *
from .runner import Runner, Job, tracing, _spawn, parse_stdout
from .conform import validate, ModelRun, compare

class Stats:
    def __init__(self):
        self.states = self.transitions = self.validated = self.replayed = self.runs = 0
        self.models, self.families, self.verdicts, self.kinds = {}, {}, {}, {}
        self.samples, self.notes = [], []
        self.distinct = set()

class Found(Exception):
    """a violation: enough for the quick tier"""

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.stats = Stats()
        self.violations = []
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.runner = None
        self.thorough = tier == "thorough"

    def start(self, exe=None, timeout=20):
        exe = exe or build()
        self.runner = Runner(exe, common.scratch(), procs=CPUS, timeout=timeout)

    def run(self, jobs):
        """-> the jobs that were run and what was observed"""
        obs = self.runner.run(jobs)
        ran = [i for i, o in enumerate(obs) if o]
        if len(ran) < len(jobs):
            log("  (%d runs left out after many that did not end)" % (len(jobs) - len(ran)))
        self.stats.runs += len(ran)
        return [jobs[i] for i in ran], [obs[i] for i in ran]

    # -- one family of inputs: run, record, validate against the specification
    def family(self, name, jobs, aspects):
        t = time.time()
        jobs = list(jobs)
        jobs, obs = self.run(jobs)
        for j in jobs:
            self.stats.distinct.add(hashlib.md5(j.text + repr((j.src, j.out, j.cap, j.args)).encode()).digest())
        bad = validate(jobs, obs, aspects, self.stats)
        if bad:
            # believe only what repeats
            sub = [b[0] for b in bad][:100]
            again = set()
            for _ in range(3):
                obs2 = self.runner.run([jobs[i] for i in sub])
                ran = [k for k in range(len(sub)) if obs2[k]]
                bad2 = validate([jobs[sub[k]] for k in ran], [obs2[k] for k in ran], aspects, Stats())
                again |= {sub[ran[b[0]]] for b in bad2}
                if again: break
            for i, fail, v in bad:
                if i in again:
                    self.violations.append((name, jobs[i], obs[i], fail, v))
                elif i in sub:
                    self.stats.notes.append("not repeated: %s %r" % (name, jobs[i].text[:200]))
        self.stats.families[name] = len(jobs)
        if jobs and len(self.stats.samples) < 8:
            k = self.rng.randrange(len(jobs))
            self.stats.samples.append({"family": name, "source": jobs[k].text[:400].decode("latin1"),
                                       "observed": {a: obs[k][a] for a in
                                                    ("status", "kind", "line", "col", "total", "size", "nsyms")}})
        log("  %-28s %6d runs %5.1f s%s" % (name, len(jobs), time.time() - t,
                                            "  BAD %d" % len(bad) if bad else ""))
        if self.violations:
            raise Found
        return obs

    # -- a program of n lines that each define another label: by induction on
    # Define (Asm), which is enabled for a name that is no label yet, it is
    # accepted and has n labels.  Too large to be evaluated line by line.
    def scale(self, name, pattern, n, timeout):
        t = time.time()
        exe, d = build(), common.scratch()
        src, out = os.path.join(d, "scale.asm"), os.path.join(d, "scale.bin")
        step = 0x9E3779B97F4A7C15
        with open(src, "w") as f:
            for k in range(0, n, 100000):
                f.write("".join([pattern % (i * step & 0xFFFFFFFFFFF) + "\n" for i in range(k, min(n, k + 100000))]))
        st, so = _spawn([exe, "-o", out, src], dict(os.environ), None, timeout)
        o = parse_stdout(so, src.encode())
        o["status"] = st
        os.unlink(src)
        fail = [a for a, ok in (("term", st in ("accept", "reject")), ("verdict", st == "accept"), ("nsyms", o["nsyms"] == n)) if not ok]
        self.stats.runs += 1
        self.stats.families[name] = 1
        log("  %-28s %6d runs %5.1f s%s" % (name, 1, time.time() - t, "  BAD" if fail else ""))
        if fail:
            self.violations.append((name, Job(("(%d lines, each of the form %s)" % (n, pattern)).encode()), o, fail, {"st": "ok", "nsyms": n}))
            raise Found

    # -- one bounded model: check, replay every finished behaviour
    def model(self, cfg, aspects, consts=None, limit=None, workers=4, spec="MC.tla"):
        return PendingModel(self, cfg, aspects, consts, limit, workers, spec)

    def replay(self, name, alpha, tests, aspects, limit):
        t = time.time()
        if limit and len(tests) > limit:
            tests = self.rng.sample(tests, limit)
        jobs, keep = [], []
        for k, x in enumerate(tests):
            e = x["env"]
            text = bytes(x["text"]) if "text" in x else b"".join(bytes(alpha[i - 1]) + b"\n" for i in x["p"])
            job = Job(text, src="ok" if e["src"] == "breaks" else e["src"], out="ok" if e["out"] == "flaky" else e["out"], cap=e["cap"],
                      pre=b"previous output\n" * 40 if e["src"] != "ok" and e["out"] != "pipe" else None)
            if e["out"] == "flaky" and x["kind"] == "assembled binary file could not be created":
                job.fault = "out:W:ENOSPC:1+"
            elif e["src"] == "breaks":
                job.fault = "src:R:EIO:2+" if text else "src:R:EIO:1+"
            if job.fault and not self.tracing():
                continue
            if job.cap >= 0:
                # (the run's own files must fit below the limit)
                job.tag = ("source", "symlink", "path")[k % 3] if job.out == "source" else ""
            jobs.append(job); keep.append(x)
        kept = {id(j): x for j, x in zip(jobs, keep)}
        jobs, obs = self.run(jobs)
        keep = [kept[id(j)] for j in jobs]
        bad = [(i, compare(keep[i], obs[i], jobs[i], aspects)) for i in range(len(jobs))]
        bad = [(i, f) for i, f in bad if f]
        if bad:
            bad = bad[:100]
            again = [self.runner.run([jobs[i] for i, _ in bad]) for _ in range(3)]
            for (i, f), *os_ in zip(bad, *again):
                if any(o and compare(keep[i], o, jobs[i], aspects) for o in os_):
                    self.violations.append(("model " + name, jobs[i], obs[i], f, keep[i]))
        self.stats.replayed += len(jobs)
        self.stats.models[name]["replayed"] = len(jobs)
        for x in keep:
            self.stats.verdicts[x["st"]] = self.stats.verdicts.get(x["st"], 0) + 1
            if x["kind"]:
                self.stats.kinds[x["kind"]] = self.stats.kinds.get(x["kind"], 0) + 1
        for j in jobs:
            self.stats.distinct.add(hashlib.md5(j.text + repr((j.src, j.out, j.cap)).encode()).digest())
        log("  %-28s %6d replayed %5.1f s%s" % ("model " + name, len(jobs), time.time() - t,
                                                "  BAD %d" % len(bad) if bad else ""))
        if self.violations:
            raise Found

    # -- a bounded design model: check; its behaviours are turned into programs
    def histories(self, cfg, spec, consts=None):
        return PendingHistories(self, cfg, (), consts, None, 2, spec)

    _tracing = None
    def tracing(self):
        """can strace inject faults here?  (noted in the evidence if not)"""
        if self._tracing is None:
            self._tracing = tracing()
            if not self._tracing:
                self.stats.notes.append("strace cannot inject faults here: those runs were left out")
        return self._tracing

    _nomem = ""
    def nomem(self):
        """the library that refuses memory (noted in the evidence if there is none)"""
        if self._nomem == "":
            self._nomem = build_nomem()
            if not self._nomem:
                self.stats.notes.append("requests for memory cannot be refused here: those runs were left out")
        return self._nomem

    _world = ""
    def world(self):
        """the library that makes up another world (noted in the evidence if there is none)"""
        if self._world == "":
            self._world = build_world()
            if not self._world:
                self.stats.notes.append("no other world can be made up here: those runs were left out")
        return self._world

    # -- histories of commands in a directory (spec/Session.tla)
    def session(self, cfg, consts=None, limit=None, workers=4):
        return PendingSession(self, cfg, (), consts, limit, workers, "Session.tla")

    def replay_session(self, name, first, tests, limit):
        t = time.time()
        if limit and len(tests) > limit:
            tests = self.rng.sample(tests, limit)
        tasks = [(first, x["log"]) for x in tests]
        res = self.runner.histories(tasks)
        bad = [i for i, (f, _) in enumerate(res) if f][:50]
        for i in bad:
            for _ in range(3):
                (f, seen), = self.runner.histories([tasks[i]])
                if f:
                    log_ = tests[i]["log"]
                    text = "\n".join("gaia " + " ".join(repr(w) for w in r["cmd"]) for r in log_).encode()
                    self.violations.append(("model " + name, Job(text, name="(command lines)"), {"seen": seen}, f[0][1],
                                            {"log": [{k: r[k] for k in ("cmd", "result", "kind", "files")} for r in log_[:f[0][0] + 1]][-1:],
                                             "task": {"how": "histories", "args": tasks[i]}}))
                    break
        n = sum(len(x["log"]) for x in tests)
        self.stats.runs += n
        self.stats.replayed += len(tests)
        self.stats.models[name]["replayed"] = len(tests)
        for x in tests:
            self.stats.distinct.add(hashlib.md5(repr([r["cmd"] for r in x["log"]]).encode()).digest())
            for r in x["log"]:
                k = "command: " + r["result"]
                self.stats.verdicts[k] = self.stats.verdicts.get(k, 0) + 1
                if r["kind"]:
                    self.stats.kinds[r["kind"]] = self.stats.kinds.get(r["kind"], 0) + 1
        if tests and len(self.stats.samples) < 8:
            x = self.rng.choice(tests)
            self.stats.samples.append({"family": "model " + name, "commands": [r["cmd"] for r in x["log"]],
                                       "results": [r["result"] for r in x["log"]]})
        log("  %-28s %6d replayed %5.1f s%s" % ("model " + name, len(tests), time.time() - t,
                                                "  BAD %d" % len(bad) if bad else ""))
        if self.violations:
            raise Found

    # -- two commands at overlapping times (spec/Together.tla)
    def together(self, cfg, consts=None, limit=None):
        return PendingTogether(self, cfg, (), consts, limit, 4, "Together.tla")

    def replay_together(self, name, first, tests, limit):
        t = time.time()
        if limit and len(tests) > limit:
            tests = self.rng.sample(tests, limit)
        ok = self.tracing()
        tasks = [(first, x, ok, self.rng.choice((-2, -1, -1, 0, 0, 0, 1, 1, 2))) for x in tests]
        res = self.runner.together(tasks)
        bad = [i for i, (f, _) in enumerate(res) if f][:20]
        for i in bad:
            for _ in range(3):
                (f, seen), = self.runner.together([tasks[i]])
                if f:
                    x = tests[i]
                    text = "\n".join("gaia " + " ".join(c) for c in seen["commands"].values()).encode()
                    self.violations.append(("model " + name, Job(text, name="(at the same time)"), seen, f,
                                            {"a": x["a"], "b": x["b"], "sched": x["sched"], "files": x["files"],
                                             "task": {"how": "together", "args": tasks[i]}}))
                    break
        self.stats.runs += 2 * len(tests)
        self.stats.replayed += len(tests)
        n = sum(any(s["interrupted"]) for _, s in res)
        self.stats.models[name]["replayed"] = len(tests)
        self.stats.models[name]["replayed with an interruption"] = n
        for x in tests:
            self.stats.distinct.add(hashlib.md5(repr((x["pair"], x["sched"])).encode()).digest())
            for w in "ab":
                k = "command: " + x[w]["result"]
                self.stats.verdicts[k] = self.stats.verdicts.get(k, 0) + 1
        log("  %-28s %6d replayed %5.1f s, %d interrupted%s" % ("model " + name, len(tests), time.time() - t, n,
                                                               "  BAD %d" % len(bad) if bad else ""))
        if self.violations:
            raise Found

    def report_violation(self):
        os.makedirs(OUT, exist_ok=True)
        name, job, obs, fail, spec = self.violations[0]
        path = os.path.join(OUT, "%s-violation.json" % self.pid)
        spec = {k: v for k, v in spec.items() if k not in ("nz",)}
        with open(path, "w") as f:
            json.dump({"property": self.pid, "family": name, "aspects": fail,
                       "job": job.desc(), "specification": spec, "observed": obs,
                       "count": len(self.violations)}, f, indent=1, default=str)
        log("violation in %s: %s" % (name, ", ".join(fail)))
        log("  source: %r%s" % (job.text[:300], "..." if len(job.text) > 300 else ""))
        log("  specification: %s" % {k: v for k, v in spec.items() if k not in ("echo", "p", "clash", "task")})
        log("  observed: %s" % {k: v for k, v in obs.items() if k not in ("nz", "echo")})
        for n in sorted({v[0] for v in self.violations}):
            log("  %s: %d violations" % (n, sum(v[0] == n for v in self.violations)))
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

class PendingModel:
    def __init__(self, check, cfg, aspects, consts, limit, workers, spec):
        self.c, self.cfg, self.aspects, self.limit = check, cfg, aspects, limit
        self.run = ModelRun(cfg, consts, workers=workers, module=spec)
    def finish(self):
        alpha, tests = self.run.finish(self.c.stats)
        if tests:
            self.c.replay(self.cfg, alpha, tests, self.aspects, self.limit)

class PendingSession(PendingModel):
    def finish(self):
        first, tests = self.run.finish(self.c.stats)
        if tests:
            self.c.replay_session(self.cfg, first, tests, self.limit)

class PendingTogether(PendingModel):
    def finish(self):
        first, tests = self.run.finish(self.c.stats)
        if tests:
            self.c.replay_together(self.cfg, first, tests, self.limit)

class PendingHistories(PendingModel):
    def finish(self):
        return self.run.finish(self.c.stats)[1]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=TIER)
    ap.add_argument("--seed", type=int, default=SEED)
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("gv.props")
    info = mod.PROPS[a.property]
    c = Check(a.property, a.tier, a.seed)
    s = c.stats
    try:
        info["run"](c)
        if not c.violations and (s.validated + s.replayed == 0 or s.runs == 0):
            raise CheckError("nothing was checked")
        if not c.violations:
            for need in info.get("needs", ()):
                if not (s.verdicts.get(need) or s.kinds.get(need)):
                    raise CheckError("vacuous: no run with outcome %r" % need)
    except Found:
        pass
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        if c.runner:
            c.runner.close()
        common.stop_all()
    ev = {"property": a.property, "tier": "thorough" if c.thorough else "quick", "seed": a.seed,
          "level": info.get("level", "model_checking"),
          "coverage": {
              "states": s.states, "transitions": s.transitions,
              "traces_validated_against_impl": s.validated + s.replayed,
              "samples": s.samples,
              "distinct_runs": len(s.distinct),
              "recorded_runs_validated_by_Conform": s.validated,
              "model_behaviours_replayed": s.replayed,
              "models": s.models, "families": s.families,
              "verdicts": s.verdicts, "diagnostics": s.kinds,
              "notes": s.notes[:20]},
          "assumptions": info.get("assumptions", mod.ASSUMPTIONS),
          "wall_s": round(time.time() - t0, 1), "violations": len(c.violations)}
    if info.get("level") == "fault_enumeration":
        ev["coverage"]["evaluations"] = s.runs
        ev["coverage"]["distinct_nontrivial"] = len(s.distinct)
        ev["coverage"]["rule"] = info["rule"]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d runs, %d states, %.1f s" % (a.property, c.tier, s.runs, s.states, time.time() - t0))
    if c.violations:
        c.report_violation()
        return 1
    print("OK property=%s" % a.property)
    return 0

if __name__ == "__main__":
    sys.exit(main())
