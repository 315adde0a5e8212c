"""Is the machinery itself in order?  Run once after installation.

1. TLC accepts every module.
2. The oracle has teeth: for a set of recorded runs (written by hand below,
   not by gaia) the true record is accepted, and the same record with any one
   observed field changed is rejected in exactly the aspects it belongs to."""
import copy, subprocess, sys, glob
from .common import *
from .runner import Job, parse_stdout
from .conform import validate

ALL = ["term", "verdict", "announce", "image", "size", "total", "nsyms", "ndiag", "kind", "where",
       "echo", "col", "source", "outfile"]

class S:
    def __init__(s): s.verdicts, s.kinds, s.states, s.transitions, s.validated = {}, {}, 0, 0, 0

def good(nz, size, total, nsyms):
    return dict(status="accept", announced=True, ndiag=0, kind="", line=0, col=-1, echo=[], fileok=False,
                total=total, totalhex=total, hexdigits=4, nsyms=nsyms, size=size, nz=nz,
                srcok=True, outuntouched=False)

def fail(kind, line, col, echo):
    return dict(status="reject", announced=False, ndiag=1, kind=kind, line=line, col=col,
                echo=list(echo), fileok=True, total=-1, totalhex=-1, hexdigits=0, nsyms=-1,
                size=0, nz=[], srcok=True, outuntouched=False)

CASES = [
    (Job(b"*=$10\nL: LDA #5\nBNE L ; c\nJMP M\nM = $1234\n"),
     good([[16, 0xa9], [17, 5], [18, 0xd0], [19, 0xfc], [20, 0x4c], [21, 0x34], [22, 0x12]], 23, 7, 2)),
    (Job(b""), good([], 0, 0, 0)),
    (Job(b"NOP\n\tLDA #$1FF"), fail("illegal addressing mode", 2, -1, b"\tLDA #$1FF")),
    (Job(b"NOP\n\tLDA #$1FG ; x \n"), fail("illegal character", 2, 16, b"\tLDA #$1FG ; x")),
    (Job(b"JMP Q\nBNE R\nQ = 300\nR = 300\n"), fail("branch offset too far away", 2, 4, b"BNE R")),
]
CHANGES = [("status", "signal 11", {"term"}), ("announced", None, {"announce"}), ("ndiag", 2, {"ndiag"}),
           ("kind", "illegal syntax", {"kind"}), ("line", 7, {"where"}), ("col", 3, {"col"}),
           ("echo", [65], {"echo"}), ("fileok", False, {"where"}), ("total", 8, {"total"}),
           ("totalhex", 8, {"total"}), ("hexdigits", 3, {"total"}), ("nsyms", 3, {"nsyms"}),
           ("size", 24, {"size"}), ("nz", [[16, 0xa9]], {"image"}), ("srcok", False, {"source"})]

def main():
    for m in ("Conform", "MC", "MCTokens", "MCChars", "Session", "MCStore", "MCReader", "MCTable"):
        p = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY", m + ".tla"], cwd=SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode or b"*** Errors" in p.stdout or b"Fatal errors" in p.stdout:
            print(p.stdout.decode("latin1")); return 1
    jobs, obs, want = [], [], []
    for j, o in CASES:
        jobs.append(j); obs.append(o); want.append(set())
        for f, v, asp in CHANGES:
            o2 = copy.deepcopy(o)
            o2[f] = (not o[f]) if v is None else v
            ok = o["status"] == "accept"
            if f == "status": asp = asp | ({"verdict"} if ok else set())
            if (f in ("kind", "line", "col", "echo", "fileok") and ok) or \
               (f in ("total", "totalhex", "hexdigits", "nsyms", "size", "nz") and not ok):
                asp = set()
            jobs.append(j); obs.append(o2); want.append(asp)
    bad = dict((i, set(f)) for i, f, v in validate(jobs, obs, ALL, S()))
    n = 0
    for i in range(len(jobs)):
        if bad.get(i, set()) != want[i]:
            print("record %d %r: expected %s, got %s" % (i, jobs[i].text, want[i], bad.get(i))); n += 1
    # the observation of output
    o = parse_stdout(b"x.asm:3: ERROR: illegal syntax\n\tLDA  \n        ^~~~~~\n\n", b"x.asm")
    if (o["kind"], o["line"], o["col"], o["ndiag"], bytes(o["echo"])) != ("illegal syntax", 3, 8, 1, b"\tLDA"):
        print(o); n += 1
    print("%d records, %d wrong" % (len(jobs), n))
    return 1 if n else 0

sys.exit(main())
