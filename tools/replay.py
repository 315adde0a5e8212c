"""python3 tools/replay.py out/C01-violation.json: run the recorded case again
on /repo's current tree and let the specification judge it."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from gv.common import *
from gv.runner import Runner, Job
from gv.conform import validate
from gv.check import Stats

ALL = ["term", "verdict", "announce", "image", "size", "total", "nsyms", "ndiag", "kind", "where",
       "echo", "col", "source", "outfile"]

def main():
    r = json.load(open(sys.argv[1]))
    if "task" in r["specification"]:
        t = r["specification"]["task"]
        run = Runner(build(), scratch(), procs=1)
        fails, seen = getattr(run, t["how"])([t["args"]])[0]
        run.close()
        print("observed:", json.dumps(seen, indent=1))
        print("disagrees on: %s" % fails if fails else "the specification agrees")
        return 1 if fails else 0
    d = r["job"]
    text = d.pop("text").encode("latin1")
    d["pre"] = None if d["pre"] is None else bytes.fromhex(d["pre"])
    d["exe"] = build_san() if r["property"] == "C15" else None
    job = Job(text, **d)
    run = Runner(build(), scratch(), procs=1)
    obs = run.run([job])
    run.close()
    aspects = [a for a in ALL if len(sys.argv) > 2 or a in r["aspects"]]
    bad = validate([job], obs, aspects, Stats())
    print(text.decode("latin1"))
    print("observed:", {k: v for k, v in obs[0].items() if k not in ("nz", "echo")})
    if not bad:
        print("the specification agrees (aspects: %s)" % ", ".join(aspects))
        return 0
    print("specification:", bad[0][2])
    print("disagrees on:", ", ".join(bad[0][1]))
    return 1

sys.exit(main())
