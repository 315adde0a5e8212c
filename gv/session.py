"""Replays behaviours of spec/Session.tla: command lines issued one after
another in a directory, and what every file holds after each of them."""
import os
from . import runner
from .runner import _spawn, parse_stdout

NOSOURCE, NOOUTPUT = "could not be opened", "assembled binary file could not be created"

def prepare(first):
    runner._clean()
    seen = {}
    for n, num in sorted(first["files"].items(), key=lambda f: (f[0] in ("l.asm", "h.asm"), f[0])):
        x = first["disk"][num - 1]
        if num in seen:
            (os.symlink if n.startswith("l") else os.link)(seen[num], n)
        elif x["kind"] == "dir":
            os.mkdir(n)
        else:
            with open(n, "wb") as f:
                f.write(content(x))
        seen.setdefault(num, n)

def content(x):
    return bytes(x["bytes"]) if x["kind"] == "bytes" else b"".join(bytes(l) + b"\n" for l in x["lines"])

def look(names):
    d = {}
    for n in os.listdir("."):
        if os.path.isdir(n):
            d[n] = "dir" if not os.listdir(n) else "directory with %s" % os.listdir(n)[:3]
        else:
            with open(n, "rb") as f:
                d[n] = f.read(100000).hex()
    return d

def run_history(task):
    """-> [(what was wrong, ...)], observations"""
    first, log = task
    prepare(first)
    texts = {n: content(first["disk"][num - 1]).hex() for n, num in first["files"].items()}
    fails, seen = [], []
    env = dict(os.environ)
    for k, r in enumerate(log):
        before = look(())
        st, so = _spawn([runner._exe] + list(r["cmd"]), env, None, runner._timeout)
        o = parse_stdout(so, b"?")
        files = look(())
        seen.append({"cmd": r["cmd"], "status": st, "announced": o["announced"], "kind": o["kind"], "files": files})
        f = []
        nonzero = st == "reject" or st.startswith("exit ")
        if r["result"] == "ok":
            if st != "accept": f.append("status")
            if not o["announced"]: f.append("announce")
        elif r["result"] == "info":
            if st != "accept": f.append("status")
            if o["announced"]: f.append("announce")
        elif r["result"] == "wrong":
            if not nonzero: f.append("status")
            if o["announced"]: f.append("announce")
        else:
            if st != "reject": f.append("status")
            if o["announced"]: f.append("announce")
            if o["kind"] not in ((NOSOURCE, NOOUTPUT) if r["both"] else (r["kind"],)) or o["ndiag"] != 1: f.append("kind")
        if r["result"] in ("info", "wrong") and files != before:
            f.append("touched")
        for n in sorted(set(files) | set(r["files"])):
            x = r["files"].get(n)
            if x is None:
                f.append("extra file " + n)
            elif x["kind"] == "any":
                pass
            elif x["kind"] == "dir":
                if files.get(n) != "dir": f.append("directory " + n)
            elif x["kind"] == "text":
                if files.get(n) != texts[n if n in texts else 0]: f.append("file " + n)
            elif files.get(n) != bytes(x["bytes"]).hex():
                f.append("file " + n)
        if f:
            fails.append((k, f))
            break
    return fails, seen
