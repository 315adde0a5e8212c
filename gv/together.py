"""Replays behaviours of spec/Together.tla: two commands at overlapping times.
A command is interrupted where the behaviour says by a SIGSTOP that strace
injects at one of its system calls; without strace both are just started."""
import os, re, signal, subprocess, time
from . import runner
from .session import content, look, NOSOURCE, NOOUTPUT
from .runner import parse_stdout

TRACE = "%file,%desc"
POINT = {"start": 0.0, "open": .3, "reading": .5, "resolving": .75, "closing": 1.0}
_CALL = re.compile(r"^(\d+)\s+(\w+)\((.*)")

def prepare(first):
    runner._clean()
    for n, x in first.items():
        with open(n, "wb") as f:
            f.write(content(x))

def _trace(n):
    return "../trace.%s.%s" % (os.path.basename(runner._dir), n)

_calls = {}
def calls(first, cmd):
    """the system calls of a command from its first one that names the source
    on, as (name, which one of that name); calls before it, if any, first"""
    key = tuple(cmd)
    if key not in _calls:
        prepare(first)
        subprocess.run(["strace", "-f", "-q", "-o", _trace("d"), "-s", "64", "-e", "trace=" + TRACE, runner._exe] + list(cmd),
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=runner._timeout)
        r, seen, count = [], False, {}
        with open(_trace("d"), errors="replace") as f:
            for l in f:
                m = _CALL.match(l)
                if not m: continue
                count[m.group(2)] = count.get(m.group(2), 0) + 1
                if not seen and '"%s"' % cmd[-1] in m.group(3) and m.group(2) != "execve":
                    seen = True
                    r = r[-1:]
                r.append((m.group(2), count[m.group(2)]))
        _calls[key] = r if seen else r[-8:]
    return _calls[key]

class Run:
    def __init__(self, cmd, stop, n):
        self.trace, self.n = _trace(n), n
        try: os.unlink(self.trace)
        except OSError: pass
        full = [runner._exe] + list(cmd)
        if stop:
            full = ["strace", "-f", "-q", "-o", self.trace, "-s", "0", "-e", "trace=%s" % stop[0],
                    "-e", "inject=%s:signal=SIGSTOP:when=%d" % stop] + full
        self.stops = bool(stop)
        self.end = time.monotonic() + runner._timeout
        self.p = subprocess.Popen(full, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  start_new_session=True, close_fds=True)
    def interrupted(self):
        """wait until the run is stopped (True) or over"""
        if not self.stops: return False
        while self.p.poll() is None and time.monotonic() < self.end:
            try:
                with open(self.trace, errors="replace") as f:
                    for l in f:
                        if "--- stopped by SIGSTOP" in l:
                            self.pid = int(l.split()[0])
                            return True
            except OSError:
                pass
            time.sleep(.0005)
        return False
    def go_on(self):
        try: os.kill(self.pid, signal.SIGCONT)
        except OSError: pass
    def result(self):
        hung = False
        try:
            so, _ = self.p.communicate(timeout=max(.1, self.end - time.monotonic()))
        except subprocess.TimeoutExpired:
            hung = True
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except OSError: pass
            so, _ = self.p.communicate()
        rc = self.p.returncode
        o = parse_stdout(so, b"?")
        o["status"] = ("hang" if hung else "accept" if rc == 0 else "reject" if rc == 1 else
                       "signal %d" % -rc if rc < 0 else "exit %d" % rc)
        return o

def run_together(task):
    """-> what was wrong, observations"""
    first, test, tracing, jitter = task
    pr = test["pair"]
    cmds = {"a": ["-o", pr["oa"], pr["sa"]], "b": ["-o", pr["ob"], pr["sb"]]}
    stop = {"a": None, "b": None}
    if tracing:
        for s in test["sched"]:
            if stop[s["who"]] is None:
                cs = calls(first, cmds[s["who"]])
                i = round(POINT[s["at"]] * (len(cs) - 1) + jitter)
                stop[s["who"]] = cs[min(len(cs) - 1, max(0, i))] if cs else None
    prepare(first)
    a = Run(cmds["a"], stop["a"], "a")
    ia = a.interrupted()
    b = Run(cmds["b"], stop["b"], "b")
    ib = b.interrupted()
    order = []
    if ia:
        a.go_on(); order.append(("a", a.result()))
    if ib: b.go_on()
    order.append(("b", b.result()))
    if not ia: order.append(("a", a.result()))
    obs = dict(order)
    files = look(())
    fails = []
    for w in "ab":
        o, r = obs[w], test[w]
        ok = r["result"] == "ok"
        if o["status"] != ("accept" if ok else "reject"): fails.append("status of " + w)
        if o["announced"] != ok: fails.append("announcement of " + w)
        if not ok and (o["ndiag"] != 1 or o["kind"] not in ((NOSOURCE, NOOUTPUT) if r["both"] else (r["kind"],))):
            fails.append("kind of " + w)
    for n in sorted(set(files) | set(test["files"])):
        x = test["files"].get(n)
        if x is None: fails.append("extra file " + n)
        elif x["kind"] == "any": pass
        elif files.get(n) != (content(first[n]) if x["kind"] == "text" else bytes(x["bytes"])).hex():
            fails.append("file " + n)
    return fails, {"commands": cmds, "stopped at": {k: v and "%s %d" % v for k, v in stop.items()}, "interrupted": [ia, ib],
                   "results": {w: {k: obs[w][k] for k in ("status", "announced", "kind")} for w in "ab"}, "files": files}
