"""Validates recorded runs against spec/Conform.tla and replays behaviours
generated by spec/MC.tla."""
import json, os, re, subprocess, tempfile, time
from .common import *

OBS = ("status", "announced", "ndiag", "kind", "line", "col", "echo", "fileok", "total",
       "totalhex", "hexdigits", "nsyms", "size", "nz", "srcok", "outuntouched")

def record(job, obs, aspects):
    asp = list(aspects)
    if job.full:
        asp = [a for a in asp if a not in ("image", "size")]
    if job.stretch:
        asp = [a for a in asp if a not in ("echo", "col")]
    met = obs.get("met", {})
    src, out = met.get("src", job.src), met.get("out", job.out)
    return {"src": src, "out": out, "cap": 0 if job.full else job.cap, "mem": met.get("mem", "ample"),
            "text": list(job.text[:met.get("text")]) if src in ("ok", "breaks") else [], "aspects": asp,
            "idle": job.stretch[0] + 1 if job.stretch else 0,
            "obs": {k: obs[k] for k in OBS}}

def initial(text):
    m = re.search(r"Finished computing initial states: (\d+)", text)
    return int(m.group(1)) if m else 0

RX_V = re.compile(r'^"@V (.*)"$')

def validate(jobs, obss, aspects, stats, shards=None, heap="2g"):
    """-> list of (index, failing aspects, what the specification says)."""
    n = len(jobs)
    if n == 0:
        return []
    weight = sum(len(j.text) for j in jobs)
    if shards is None:
        shards = max(1, min(CPUS, n, max(n // 150, weight // 20000) + 1))
    # spread the records evenly by size
    order = sorted(range(n), key=lambda i: -len(jobs[i].text))
    groups = [order[k::shards] for k in range(shards)]
    procs = []
    for g in groups:
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=scratch())
        with os.fdopen(fd, "w") as f:
            for i in g:
                f.write(json.dumps(record(jobs[i], obss[i], aspects), separators=(",", ":")) + "\n")
        outp = path + ".out"
        p = tlc_start("Conform.cfg", "Conform.tla", env={"GV_RECS": path}, outfile=outp, heap=heap)
        procs.append((p, g, path, outp))
    bad = []
    seen = 0
    for p, g, path, outp in procs:
        p.wait()
        with open(outp, encoding="latin1") as f:
            text = f.read()
        got = set()
        for l in text.splitlines():
            m = RX_V.match(l)
            if m:
                v = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
                i = g[v["rec"] - 1]
                got.add(i)
                stats.verdicts[v["st"] + ("" if v["indomain"] else " (outside the domain)")] = \
                    stats.verdicts.get(v["st"] + ("" if v["indomain"] else " (outside the domain)"), 0) + 1
                if v["kind"]:
                    stats.kinds[v["kind"]] = stats.kinds.get(v["kind"], 0) + 1
                if v["fail"]:
                    bad.append((i, v["fail"], v))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if p.returncode != 0 or not m or len(got) != len(g):
            raise CheckError("conformance checking failed (TLC exit %s, %d of %d verdicts)\n%s" %
                             (p.returncode, len(got), len(g), text[-4000:]))
        stats.transitions += int(m.group(1)) - initial(text); stats.states += int(m.group(2))
        seen += len(got)
        os.unlink(path); os.unlink(outp)
    stats.validated += seen
    return sorted(bad, key=lambda b: b[0])

# ------------------------------------------------------------------ models
class ModelRun:
    """A bounded exhaustive run of a model; tests() yields its behaviours."""
    def __init__(self, cfgname, consts=None, workers=4, heap="6g", module="MC.tla"):
        self.name = cfgname
        cfg = os.path.join(SPEC, cfgname + ".cfg")
        if consts:
            with open(cfg) as f:
                s = f.read()
            for k, v in consts.items():
                s, c = re.subn(r"\b%s\s*=\s*\S+" % k, "%s = %s" % (k, v), s)
                if c != 1:
                    raise CheckError("no constant %s in %s" % (k, cfg))
            fd, cfg = tempfile.mkstemp(suffix=".cfg", dir=scratch())
            with os.fdopen(fd, "w") as f:
                f.write(s)
        fd, self.outp = tempfile.mkstemp(suffix=".mc", dir=scratch())
        os.close(fd)
        self.p = tlc_start(cfg, module, outfile=self.outp, workers=workers, heap=heap)
    def finish(self, stats):
        self.p.wait()
        alpha, tests, rest = None, [], []
        with open(self.outp, encoding="latin1") as f:
            for l in f:
                if l.startswith('"@T '):
                    tests.append(json.loads(l.rstrip("\n")[4:-1].replace('\\"', '"').replace("\\\\", "\\")))
                elif l.startswith('"@A '):
                    alpha = json.loads(l.rstrip("\n")[4:-1].replace('\\"', '"').replace("\\\\", "\\"))
                else:
                    rest.append(l)
        text = "".join(rest)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", text)
        if self.p.returncode != 0 or not m or "No error has been found" not in text:
            raise CheckError("model %s: TLC exit %s\n%s" % (self.name, self.p.returncode, text[-6000:]))
        n = int(m.group(1)) - initial(text)
        stats.transitions += n; stats.states += int(m.group(2))
        stats.models[self.name] = {"states": int(m.group(2)), "transitions": n,
                                   "behaviours": len(tests)}
        os.unlink(self.outp)
        return alpha, tests

NOSOURCE = "could not be opened"
def compare(test, obs, job, aspects):
    """A generated behaviour's end against the observation: failing aspects."""
    ok = test["st"] == "ok"
    if not test.get("dom", True):
        aspects = ["term"]
    if test.get("env", {}).get("src") == "breaks" and obs["kind"] == NOSOURCE and obs["status"] == "reject":
        return []  # may fail before lines that could still be read
    X = set(test["clash"])
    f = []
    def need(a, cond):
        if a in aspects and not cond:
            f.append(a)
    need("term", obs["status"] in ("accept", "reject"))
    need("verdict", (obs["status"] == "accept") == ok)
    need("announce", obs["announced"] == ok)
    need("ndiag", obs["ndiag"] == (0 if ok else 1))
    if ok:
        if not job.full:
            need("image", {(a, b) for a, b in obs["nz"] if a not in X} == {(a, b) for a, b in test["nz"]})
            need("size", obs["size"] == test["size"])
        need("total", obs["total"] == test["total"] == obs["totalhex"] and obs["hexdigits"] >= 4)
        need("nsyms", obs["nsyms"] == test["nsyms"])
    else:
        need("kind", obs["kind"] == test["kind"])
        if test["st"] == "diag":
            need("where", obs["line"] == test["line"] and obs["fileok"])
            need("col", obs["col"] == test["col"])
            need("echo", obs["echo"] == test["echo"])
    need("source", obs["srcok"])
    if test["out"] == "untouched":
        need("outfile", obs["outuntouched"])
    return f
