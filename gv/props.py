"""For each property: which inputs are run, which aspects of the observation
the specification must agree with, and which bounded models are checked."""
import itertools, os, random
from .common import *
from .runner import Job
from .gen import *
from .wild import wild
from .shipped import shipped

ASSUMPTIONS = [
    "TLC evaluates the specification correctly",
    "programs stay within addresses $0000-$FFFF; bytes of overlapping instructions are not compared",
    "the program under test is built by the repository's Makefile with the installed gcc",
]

CODE = ["term", "verdict", "announce", "image", "size"]
FULL = CODE + ["total", "nsyms", "ndiag"]
DIAG = ["term", "verdict", "announce", "ndiag", "where", "kind", "echo", "col"]

def batches(seq, n):
    seq = list(seq)
    for i in range(0, len(seq), n):
        yield seq[i:i + n]

def sample(c, seq, quick, thorough=None):
    seq = list(seq)
    n = thorough if c.thorough else quick
    return seq if n is None or len(seq) <= n else c.rng.sample(seq, n)

# ------------------------------------------------------------------ other properties' inputs
class Collector:
    """Takes the place of a check: keeps the inputs another property writes."""
    thorough = False
    runner = None
    def __init__(self, rng):
        self.rng, self.jobs = rng, []
    def start(self, *a, **kw): pass
    def close(self): pass
    def model(self, *a, **kw): return self
    session = histories = together = model
    def finish(self): return []
    def scale(self, *a): pass
    def family(self, name, jobs, aspects): self.jobs += jobs

# whose inputs also say something about a property
RELATED = {
    "C01": "C02 C05 C13", "C02": "C01 C05 C06 C04", "C03": "C05 C13 C16 C04 C09", "C04": "C05 C10 C14 C03",
    "C05": "C03 C04 C06 C13 C16", "C06": "C05 C03 C13", "C07": "C02 C14 C11", "C08": "C11 C09 C14 C10 C01",
    "C09": "C08 C11 C13", "C10": "C04 C08 C05", "C11": "C08 C07 C05 C06 C10 C04 C01", "C12": "C11 C05 C03 C16 C09 C06",
    "C13": "C01 C05 C09 C04 C14 C03", "C14": "C03 C05 C08 C09 C11", "C15": "C01 C04 C05 C08 C09 C10 C11 C13 C07",
    "C16": "C03 C05 C04 C14 C13",
}

def others(c, pid, aspects, quick=700):
    """inputs written for related properties, judged by this property's aspects"""
    if isinstance(c, Collector): return
    col = Collector(random.Random("others/%s/%d" % (pid, c.seed)))
    pools = []
    for q in RELATED[pid].split():
        col.jobs = []
        PROPS[q]["run"](col)
        pools.append([j for j in col.jobs if pid == "C12" or (j.src == "ok" and j.out == "ok" and j.cap < 0 and not j.full)])
    jobs = []
    for p in pools:
        p = [j for j in p if len(j.text) < (20000 if c.thorough else 3000)]
        n = min(len(p), 4000 if c.thorough else quick // len(pools) + 1)
        jobs += col.rng.sample(p, n)
    c.family("inputs of " + RELATED[pid], jobs, aspects)
    c.family("shipped programs and changed ones", [J(t) for t in shipped(c.rng, 4000 if c.thorough else 200)], aspects)
    for k in range(8 if c.thorough else 1):
        c.family("authors' programs" + (" %d" % k if k else ""), [J(wild(c.rng)) for _ in range(1500 if c.thorough else 600)], aspects)

# ------------------------------------------------------------------ C01
def operand_programs(m, shape, rng, vals):
    """one instruction with its operand given in every way"""
    for v in vals:
        yield lines(ins(m, shape, "$%X" % v))
    for v in rng.sample(vals, min(2, len(vals))):
        yield lines("CON = %d" % v, ins(m, shape, "con"))
        yield lines("*=%d" % v, "ADR", "*=$200", ins(m, shape, "ADR"))
    yield lines(ins(m, shape, "LATER"), "LATER: NOP")
    yield lines("*=$300", "NOP", ins(m, shape, "LATER"), "*=$320", "LATER")
    yield lines(ins(m, shape, "LATER"), "LATER = $12")
    yield lines("SELF " + ins(m, shape, "SELF"))

def c01(c):
    c.start()
    mr = c.model("MCoperands", CODE, consts={"Depth": 4 if c.thorough else 3}, limit=60000)
    rng = c.rng
    jobs = []
    for m in MNEM:
        for s in SHAPES:
            if "{}" not in SHAPES[s]:
                jobs.append(J(lines(ins(m, s))))
                jobs.append(J(lines("L " + ins(m.lower(), s.lower()))))
            else:
                vals = [0x12, 0xFF, 0x100, 0x1234] + ([0, 0xFFFF] + BOUND[5:25] if c.thorough else [])
                jobs += [J(p) for p in operand_programs(m, s, rng, vals)]
    c.family("mnemonic x syntax x operand", jobs, CODE)
    # every encoding with many operand values
    jobs = []
    for m in MNEM:
        ls = []
        for s in OPSHAPES:
            for v in (range(0, 256, 1) if c.thorough else rng.sample(range(256), 6)):
                ls.append((m, s, v))
            for v in rng.sample(range(256, 65536), 40 if c.thorough else 4):
                ls.append((m, s, v))
        good = [(m_, s, v) for m_, s, v in ls if likely(m_, s, v)]
        for b in batches(good, 60):
            jobs.append(J(lines(*[ins(m_, s, num(rng, v)) for m_, s, v in b])))
    c.family("encodings in sequence", jobs, CODE)
    c.family("whole programs", [J(prog(rng, rng.randrange(5, 60))) for _ in range(3000 if c.thorough else 250)], CODE)
    others(c, "C01", CODE)
    mr.finish()

def likely(m, s, v):
    L = LIKELY
    if m in BRANCH: return s == "plain" and v < 256
    if m in ("JMP", "JSR"): return s == "plain" or (s == "ind" and m == "JMP")
    if s == "ind": return False
    if s == "y": return m in L["yzp"] if v < 256 else m in L["yabs"]
    if s in ("imm", "indx", "indy"): return v < 256 and m in L[s]
    if s == "x": return m in L["x"] and not (m == "STY" and v > 255) or (m == "STY" and v < 256)
    return m in L.get(s, ())

# ------------------------------------------------------------------ C02
def c02(c):
    c.start()
    m2 = c.model("MCtop", CODE, consts={"Depth": 4 if c.thorough else 3}, limit=60000)
    mr = c.model("MCoperands", CODE, consts={"Depth": 4 if c.thorough else 3}, limit=60000)
    rng = c.rng
    users = [(m, s) for m in MNEM for s in OPSHAPES
             if any(likely(m, s, v) for v in (0x10, 0x1234))]
    jobs = []
    for m, s in users:
        for v in (0, 1, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x1ff, 0xff00, 0xffff):
            jobs.append(J(lines(ins(m, s, num(rng, v)))))
            k = rng.randrange(3)
            if k == 0:
                jobs.append(J(lines("K = " + num(rng, v), ins(m, s, "K"))))
            elif k == 1:
                jobs.append(J(lines(".ORG " + num(rng, v), "K:", "*=$400", ins(m, s, "K"))))
            else:
                jobs.append(J(lines(".DEFINE K " + num(rng, v), "NOP", ins(m, s, "k"))))
    c.family("widths at the limits", jobs, CODE)
    # one-byte positions: nothing above $FF gets through
    jobs = []
    for m, s in users:
        if s in ("imm", "indx", "indy") or m in BRANCH:
            for v in sample(c, [256 * h + l for h in (1, 2, 16, 127, 128, 255) for l in (0, 1, 0x80, 0xff)], 5, 24):
                jobs.append(J(lines(ins(m, s, num(rng, v)))))
                if m not in BRANCH:
                    jobs.append(J(lines("K .EQU %d" % v, ins(m, s, "K"))))
    c.family("too wide for one byte", jobs, CODE)
    # labels behind the last address: in no operand but a branch's
    jobs = []
    for end in (["*=$FFFF", "NOP"], ["*=$FFFE", "LDA #1"], ["*=$FFFD", "JMP 3"], ["*=$FFFD", "JMP TOP"], ["*=$FFFE", "BNE TOP"]):
        for d in ("TOP", "TOP:"):
            for m, s in users:
                jobs.append(J(lines(*end, d, "*=$%X" % rng.choice((0, 0x80, 0xff00)), ins(m, s, "TOP"))))
            for m, s in [(m, "plain") for m in BRANCH + ["JMP", "JSR"]] + [("JMP", "ind")]:
                for at in (0, 0xff7e, 0xff7f, 0xff80, 0xfff0):
                    if c.thorough or rng.random() < .5:
                        jobs.append(J(lines("*=%d" % at, ins(m, s, "TOP"), *end, d)))
                        jobs.append(J(lines(*end, d, "*=%d" % at, ins(m, s, "TOP"))))
    c.family("labels behind the last address", jobs, CODE + ["kind"])
    # spellings of one value
    jobs = []
    for v in (0, 5, 0x80, 0xff, 0x100, 0xabc, 0xffff):
        for sp in ("$%x", "$%X", "$0%x", "$%04x", "$%08x", "%d", "0%d", "%06d", "%0200d", "$%0100x"):
            for m in ("LDA", "STX", "JMP"):
                jobs.append(J(lines(m + " " + sp % v)))
        for w in (0, 1, 8, 9, 16, 17, 40):
            jobs.append(J(lines("LDY %" + bin(v)[2:].zfill(w))))
    c.family("spellings", jobs, CODE)
    # sweeps: the same instruction at many values
    jobs = []
    vals = range(65536) if c.thorough else sorted(set(rng.sample(range(65536), 1200)) | set(range(0x80, 0x180)))
    k = 0
    for b in batches(vals, 150):
        m = "LDA ORA STA INC LSR CPY LDX BIT".split()[k % 8]; k += 1
        jobs.append(J(lines(*["%s $%x" % (m, v) for v in b])))
        jobs.append(J(lines("*=0", *["JMP (%d)" % v if v % 3 else "JSR %d" % v for v in b])))
        jobs.append(J(lines(*["%s %d,X" % (rng.choice(LIKELY["x"][:3]), v) for v in b])))
    c.family("value sweep", jobs, CODE)
    c.family("whole programs", [J(prog(rng, rng.randrange(5, 60), consts=12)) for _ in range(2000 if c.thorough else 200)], CODE)
    others(c, "C02", CODE)
    m2.finish()
    mr.finish()

def everywhere(rng, thorough):
    """an origin at every address: instructions and definitions there, in various orders"""
    jobs = []
    for n, step in ((1, 7), (2, 5), (3, 4)) if not thorough else ((1, 1), (2, 2), (3, 3), (3, 5)):
        at = list(range(rng.randrange(step), 65537 - n, step))
        for v in (0xff, 0x100, 0x7fff, 0x8000, 65536 - n):      # (the limits, unless something is there)
            if all(abs(v - a) >= n for a in at[max(0, v // step - 3):v // step + 4]): at.append(v)
        if rng.random() < .5: rng.shuffle(at)
        elif rng.random() < .5: at.reverse()
        for part in [at[k::parts] for parts in ((len(at) + 1499) // 1500,) for k in range(parts)]:
            ls = []
            for a in part:
                ls.append(rng.choice(("*=%d", "*=$%x", ".ORG %d", ".org $%X")) % a)
                if rng.random() < .03: ls.append("P%d" % a)
                ls.append({1: "NOP", 2: "LDA #$%x" % (a * 7 % 256), 3: "STA $%x" % (256 + a * 7 % 65000)}[n])
            jobs.append(J(lines(*ls)))
    return jobs

# ------------------------------------------------------------------ C03
def c03(c):
    c.start()
    m2 = c.model("MCtop", CODE, consts={"Depth": 4 if c.thorough else 3}, limit=60000)
    mr = c.model("MCrefs", CODE, consts={"Depth": 5 if c.thorough else 4}, limit=80000 if c.thorough else 9000)
    rng = c.rng
    one = ["NOP", "LDA #1", "LDA $1234", "JMP F", "BEQ F", "ASL A"]
    jobs = []
    spots = [0, 1, 2, 3, 127, 128, 255, 256, 4095, 4096, 0x7fff, 0x8000, 0xfff0, 0xfffd]
    for a in spots:
        for i in one:
            jobs.append(J(lines("*=%d" % a, i, "F = %d" % a)))
    for a, b in sample(c, itertools.permutations(spots, 2), 120, None):
        jobs.append(J(lines(".ORG %d" % a, rng.choice(one), "*=%d" % b, rng.choice(one), "F = %d" % rng.choice((a, b)))))
        jobs.append(J(lines(".ORG %d" % a, "LDX #$AB", "L1 = 3", "*=%d" % b, "L2:", ".ORG $9000")))
    for i in one:
        n = {"N": 1, "A": 1, "B": 2, "J": 3}.get(i[0], 2 if "#" in i else 3)
        jobs.append(J(lines("*=%d" % (65536 - n), i, "F = $FFF0")))
    c.family("origins", jobs, CODE)
    jobs = []
    for _ in range(1500 if c.thorough else 160):
        # disjoint pieces placed in any order
        k = rng.randrange(2, 9)
        slots = rng.sample(range(0, 0xff00 // 64), k)
        ls, refs = [], 0
        for j, s in enumerate(slots):
            ls.append(rng.choice(("*=%d", ".ORG %d", "*= $%x")) % (s * 64 + rng.randrange(20)))
            for _ in range(rng.randrange(0, 12)):
                x = rng.random()
                ls.append("L%d%s" % (len(ls), rng.choice(("", ":", " NOP"))) if x < .15 else
                          "JMP P%d" % rng.randrange(k) if x < .3 else
                          "STA $%x" % rng.randrange(1, 65536) if x < .6 else
                          "LDA #$%x" % rng.randrange(1, 256) if x < .8 else rng.choice(LIKELY["none"]))
            ls.append("P%d" % j)
        jobs.append(J(lines(*ls)))
    c.family("pieces in any order", jobs, CODE)
    jobs = [J(prog(rng, rng.randrange(20, 120), space=0xf000)) for _ in range(1500 if c.thorough else 120)]
    # dense code from 0 past several page boundaries
    for n in (100, 300) + ((1000, 5000) if c.thorough else ()):
        jobs.append(J("".join(rng.choice(("INX\n", "LDA #7\n", "STA $7777\n", "JMP E\n")) for _ in range(n)) + "E = 9\n"))
    c.family("whole programs", jobs, CODE)
    c.family("every address", everywhere(rng, c.thorough), CODE)
    # programs whose last bytes are zero, at the end and in gaps
    zero = ["BRK", "LDA #0", "STA $0", "JMP 0", "JMP ($0)", "ORA (0,X)", "STA $1200", "BNE 0", "JSR Z", "JMP Z", "BEQ ZB", "LDX ZC", "BRK\nBRK\nBRK"]
    jobs = []
    for z in zero:
        for a in (0, 5, 0xfe, 0x7ffe, 0xfff0):
            b = a + 2 if z == "BEQ ZB" else 0
            jobs.append(J(lines("ZC = 0", "*=%d" % a, z, "Z = 0", "ZB = %d" % b)))
            jobs.append(J(lines("ZC = 0", "LDX #1", "*=%d" % a, z, "*=2", "NOP", "Z = $1200", "ZB = %d" % b)) if a > 4 else J(lines(z, "Z = 0", "ZB=2", "ZC = 9")))
            jobs.append(J(lines("Z = 0", "ZC = 0", "*=%d" % a, z.replace("BEQ ZB", "BRK"), "*=%d" % (a // 2 + 9), "Q", "*=3")))
        for y in zero:
            jobs.append(J(lines("ZC = 0", "*=$%x" % rng.randrange(2, 0xff00), z, y, "Z = 0", "ZB = %d" % rng.randrange(256))))
    c.family("zero bytes", jobs, CODE)
    # blank, label, comment and directive lines take no place
    jobs = [J(lines(*["NOP", x, "LDA #$99", x.replace("Q", "R"), "JMP Z", "Z = 7"]))
            for x in ["", "Q", "Q:", "Q = 1", "Q .EQU $FFFF", ".DEFINE Q 3", "; NOP", "   ", "\t;", "*=$20", ".ORG 33"]]
    c.family("lines without code", jobs, CODE)
    others(c, "C03", CODE)
    m2.finish()
    mr.finish()

# ------------------------------------------------------------------ C04
def djb2(s):
    h = 5381
    for ch in s.upper():
        h = (h * 33 + ord(ch)) & (2**64 - 1)
    return h

def collide(k):
    """2^k names with one hash value under the usual string hash (33h + c)"""
    return ["".join(p) for p in itertools.product(("AZ", "B9"), repeat=k)]

SIZES = [17, 37, 79, 163, 331, 673, 1361, 2729]

def label_users(rng, names, vals):
    ls = []
    for n in names:
        v = vals[n]
        ls.append(rng.choice(("JMP %s", "JSR %s", "JMP (%s)")) % n if rng.random() < .5 else
                  ("LDA %s" if v > 255 else rng.choice(("LDA #%s", "LDA %s", "STA (%s),Y"))) % n)
    return ls

def table_program(rng, names, order="after"):
    vals = {n: value(rng) for n in names}
    forms = ("%s = %d", "%s .EQU %d", ".DEFINE %s %d", "*=%d#%s")
    ls = []
    for n in names:
        f = rng.randrange(5)
        if f < 3: ls.append(forms[f] % (n, vals[n]))
        else: ls += ["*=%d" % vals[n], n + (":" if f == 4 else "")]
    us = names[:]
    rng.shuffle(us)
    users = ["*=0"] + label_users(rng, us, vals)
    return lines(*(ls + users))

def store_programs(rng, hists):
    """Programs that define labels in the order of a history of the label store
    and use them before and afterwards."""
    out = []
    for h in hists:
        ns = h["names"]
        ls = ["JMP " + n for n in rng.sample(ns, min(len(ns), rng.randrange(3)))]
        vals = {}
        for n in ns:
            v = vals[n] = rng.randrange(65536)
            ls.append(rng.choice(("{0} = {1}", "{0} .EQU ${1:x}", ".DEFINE {0} {1}", "*={1}\n{0}", "*={1}\n{0}:")).format(n, v))
        us = ns[:]
        rng.shuffle(us)
        ls.append("*=0" if rng.random() < .9 else "*=$7000")
        ls += [rng.choice(("STA %s", "JMP %s", "JMP (%s)", "LDX %s")) % recase(rng, n) for n in us]
        k = rng.randrange(4)
        if k == 0: ls.append(rng.choice(("LDA #ZZ", "LDX L9", "JMP P2", "JSR M9", "BNE Q1")))
        elif k == 1: ls.append(rng.choice(("%s = 3", "%s", "%s: NOP", ".DEFINE %s 9")) % rng.choice(ns))
        out.append(J(lines(*ls)))
    return out

def reader_programs(rng, hists, err=False):
    """Programs whose lines have the lengths of a history of the line reader,
    with code at either end."""
    out = []
    for h in hists:
        ls = []
        n = len(h["lengths"])
        bad = rng.randrange(n) if err and n else -1
        for k, m in enumerate(h["lengths"]):
            code = rng.choice(("LDA #%d" % (k + 1), "L%d: INX" % k, "JMP F", "BNE F", "K%d = %d" % (k, m)))
            if k == bad: code = rng.choice(("LDA #%", "LDA NEW", "JMP MISSING", "STA #1", "K = = 3"))
            pad = m - len(code)
            if pad < 0: ls.append(rng.choice((" ", "\t", ";")) * m)
            else: ls.append(rng.choice((code + " " * pad, " " * pad + code, code + ";" * pad, code + (" ; " + "LDA #9 :.$" * m)[:pad],
                                        " " * (pad // 2) + code + "\t" * (pad - pad // 2))))
        t = "\n".join(ls) + ("\n" if n and h["last"] else "")
        out.append(J("F = 3\n" + t if "F" in t and rng.random() < .5 else t + ("F" if t.endswith("\n") else "")))
    return out

def c04(c):
    c.start()
    ms = c.histories("MCStore", "MCStore.tla", {"Depth": 4} if c.thorough else None)
    mt = c.histories("MCTiny", "MCStore.tla")
    mr = c.model("MClabels", CODE + ["nsyms"], consts={"Depth": 5 if c.thorough else 4}, limit=80000 if c.thorough else 12000)
    rng = c.rng
    asp = CODE + ["nsyms"]
    jobs = []
    for n in list(range(1, 45)) + [78, 79, 80, 81, 82, 83, 163, 164, 165, 166, 167, 331, 332, 333, 334] + \
             ([500, 673, 674, 1000, 1361, 1362, 1363, 2000, 3000] if c.thorough else [400, 700, 1400]):
        names = []
        while len(names) < n:
            x = name(rng, 1, rng.choice((2, 6, 30)))
            if x.upper() not in [y.upper() for y in names]: names.append(x)
        jobs.append(J(table_program(rng, names)))
    for n in (100, 300) + ((2000,) if c.thorough else ()):
        jobs.append(J(table_program(rng, ["LABEL%d" % i for i in range(n)])))
    # beyond every width a counter may have
    for n in (33000, 66000, 132000) if c.thorough else (33000, 66000):
        jobs.append(J("".join("Z%d = %d\n" % (i, i * 7 % 65536) for i in range(n)) + "JMP NEXT\nNEXT:" +
                      "".join("LDA Z%d\n" % i for i in rng.sample(range(n), 60)) + "JMP (LAST)\nLAST .EQU 9"))
    c.family("number of labels", jobs, asp)
    # labels that compete for the same place in a hash table of any usual size
    jobs = []
    for k in (1, 2, 3, 4, 5):
        names = collide(k)
        for _ in range(3):
            rng.shuffle(names)
            jobs.append(J(table_program(rng, names[:])))
    cand = ["%s%s%s" % (a, b, d) for a in "BCDEFGHI" for b in ALNUM[:26] for d in "0123456789_QRST"]
    cand = [x for x in cand if x not in RESERVED]
    for size in SIZES[:5 if not c.thorough else 8]:
        for slot in (0, 1, size - 1, size - 2, size // 2):
            same = [x for x in cand if djb2(x) % size == slot]
            near = [x for x in cand if (djb2(x) - slot) % size < 3]
            for pool in (same, near):
                n = min(len(pool), max(2, size // 2), 60)
                names = rng.sample(pool, min(n, len(pool)))
                if names:
                    jobs.append(J(table_program(rng, names)))
    c.family("crowded tables", jobs, asp)
    mt.finish()
    c.family("histories of the label store", store_programs(rng, ms.finish()), asp)
    # a second definition is rejected wherever and however the first was made,
    # and an unknown name is never found
    defs = ["%s = 1", "%s .EQU $200", ".DEFINE %s 3", "%s", "%s:", "%s NOP", "%s: LDA #1"]
    jobs = []
    for a in defs:
        for b in defs:
            for n in (0, 9, 30):
                fill = ["K%d = %d" % (i, i) for i in range(n)]
                nm = name(rng, 2, 9)
                jobs.append(J(lines(a % nm, *fill, b % recase(rng, nm), "RTS")))
                jobs.append(J(lines(a % nm, *fill, b % (nm + "Z"), "RTS")))
    for n in (1, 8, 9, 17, 18, 19, 40, 80):
        names = ["Q%d" % i for i in range(n)]
        for i in sample(c, range(n), 4, 40):
            jobs.append(J(lines(*["%s = 7" % x for x in names], names[i] + ":")))
        jobs.append(J(lines(*["%s = 7" % x for x in names], "LDA #Q%d" % n)))
        jobs.append(J(lines(*["%s = 7" % x for x in names], "JMP Q%d" % n)))
    for k in (1, 2, 3, 4):
        names = collide(k)
        for miss in sample(c, range(len(names)), 4, 16):
            got = [x for x in names if x != names[miss]]
            jobs.append(J(lines(*["%s = %d" % (x, i) for i, x in enumerate(got)], "LDX #" + names[miss])))
            jobs.append(J(lines(*["%s = %d" % (x, i) for i, x in enumerate(got)], "JSR " + names[miss])))
            jobs.append(J(lines(*["%s = %d" % (x, i) for i, x in enumerate(got)], got[0] + ":")))
    c.family("redefined and unknown labels", jobs, CODE)
    # the value a use sees is the defined one at every distance
    jobs = []
    for _ in range(600 if c.thorough else 100):
        jobs.append(J(prog(rng, rng.randrange(10, 80), consts=25)))
    for v in BOUND:
        jobs.append(J(lines("V = %d" % v, "W = %d" % (65535 - v), "JMP V", "JSR W", "U:", "JMP U", "BEQ U", "*=%d" % v, "T", "*=6", "JMP T")))
    c.family("values", jobs, asp)
    others(c, "C04", asp)
    mr.finish()

# ------------------------------------------------------------------ C05
def c05(c):
    c.start()
    m2 = c.model("MCtop", CODE, consts={"Depth": 4 if c.thorough else 3}, limit=60000)
    ms = c.histories("MCStore", "MCStore.tla")
    mr = c.model("MCrefs", FULL + ["where"], consts={"Depth": 5 if c.thorough else 4}, limit=80000 if c.thorough else 9000)
    rng = c.rng
    asp = FULL + ["where"]
    jobs = []
    for n in list(range(0, 20)) + [23, 24, 25, 31, 32, 33, 34, 47, 62, 63, 64, 65, 100, 127, 128, 129] + \
             ([255, 256, 257, 511, 512, 513, 1000, 1500] if c.thorough else [200, 256, 257, 513, 1025]):
        refs = [rng.choice(("JMP T%d", "JSR T%d", "JMP (T%d)")) % i for i in range(n)]
        jobs.append(J(lines(*refs, *["T%d = %d" % (i, value(rng)) for i in range(n)])))
        refs = ["JMP T%d" % rng.randrange(max(1, n // 3)) for _ in range(n)]
        defs = ["T%d: %s" % (i, rng.choice(LIKELY["none"])) for i in range(max(1, n // 3))]
        rng.shuffle(defs)
        jobs.append(J(lines("*=$400", *refs, *defs)))
        k = min(n, 40)
        jobs.append(J(lines("*=$C0", *["%s OUT" % rng.choice(BRANCH) for _ in range(k)], "OUT RTS")))
        # one of them is never defined
        if n:
            miss = rng.randrange(n)
            jobs.append(J(lines(*["JMP T%d" % i for i in range(n)],
                                *["T%d = 5" % i for i in range(n) if i != miss])))
    c.family("number of references", jobs, asp)
    c.family("histories of the label store", store_programs(rng, sample(c, ms.finish(), 250, 10000)), asp)
    jobs = []
    kinds = ["JMP F", "JSR F", "JMP (F)"] + [b + " F" for b in BRANCH]
    for k in kinds:
        for d in ("F", "F:", "F NOP", "F: LDA #1", "F = $55", "F .EQU $66", ".DEFINE F $44", "*=$44\nF", "F = $1234", ""):
            jobs.append(J(lines("*=$40", k, "NOP", d)))
            jobs.append(J(lines("*=$40", "LAB " + k, "JMP LAB", d, "BNE LAB")))
            jobs.append(J(lines("*=$40", k, ".END", d)))
            jobs.append(J(lines("*=$40", k, k, d, k, ".END")))
    # at every kind of address, to every kind of value
    spots = [0, 1, 0x10, 0x7d, 0x7e, 0x7f, 0x80, 0xfd, 0xfe, 0xff, 0x100, 0x1fe, 0x7ff, 0xffe, 0xfff, 0x1000, 0x7ffd, 0x7ffe, 0x7fff, 0x8000, 0x8001,
             0x80fe, 0x9fff, 0xc000, 0xfefe, 0xff00, 0xff7f, 0xff80, 0xfff0, 0xfffc, 0xfffd]
    for a in spots + rng.sample(range(65533), 40):
        for k in ("JMP F", "JSR F", "JMP (F)"):
            jobs.append(J(lines("*=%d" % a, k, "F = %d" % value(rng))))
            if a < 0xff00: jobs.append(J(lines("*=%d" % a, k, "INX", "F")))
            jobs.append(J(lines("*=%d" % a, k, "*=%d" % rng.choice(spots), "F:")))
        for o in (-128, -3, 0, 1, 127):
            if 0 <= a + 2 + o < 65536:
                jobs.append(J(lines("*=%d" % a, rng.choice(BRANCH) + " F", "F = %d" % (a + 2 + o))))
    for m in MNEM:
        for s in OPSHAPES:
            jobs.append(J(lines("*=$40", ins(m, s, "F"), "F = $50")))
            jobs.append(J(lines("*=$40", ins(m, s, "F"), "F NOP")))
    for n in sorted(set(list(range(1, 10)) + [15, 16, 17, 20, 30, 31, 32, 33, 40, 47, 48, 49, 55, 61, 62, 63])):
        for k in ("JMP %s", "JSR %s", "JMP (%s)", rng.choice(BRANCH) + " %s"):
            w = "".join(rng.choice(ALNUM[:52] if not i else ALNUM) for i in range(n))
            if w.upper() in RESERVED: continue
            v = w[:-1] + ("Q" if w[-1] not in "qQ" else "R")
            ok = v.upper() not in RESERVED
            jobs.append(J(lines("*=$40", k % w, *([k % v, v + " NOP"] if ok else []), recase(rng, w) + ":", "INX")))
            jobs.append(J(lines("*=$40", k % w, k % recase(rng, w), "%s = $%x" % (w, 0x50 + n % 16), *([v + " = 3"] if ok else []))))
            if n > 1 and w[:-1].upper() not in RESERVED:
                jobs.append(J(lines("*=$40", k % w[:-1], k % w, w + " = $48", w[:-1] + " = $4A")))
                jobs.append(J(lines("*=$40", k % w, k % w[:-1], w + " = $48", w[:-1] + " = $4A")))
                jobs.append(J(lines("*=$40", k % w, "%s = $48" % w[:-1])))
    c.family("each kind of reference", jobs, asp)
    c.family("interleavings", [J(prog(rng, rng.randrange(10, 100), consts=4)) for _ in range(3000 if c.thorough else 300)], FULL)
    # references and their targets around origins, with a pending list of some size
    jobs = []
    for _ in range(1000 if c.thorough else 150):
        k = rng.randrange(1, 14)
        pieces = []
        for i in range(k):
            b = ["*=%d" % (0x100 * i + rng.randrange(8))]
            for _ in range(rng.randrange(1, 6)):
                b.append(rng.choice(("JMP P%d", "JSR P%d", "JMP (P%d)")) % rng.randrange(k))
            near = "N%d" % i
            if rng.random() < .6: b += ["%s %s" % (rng.choice(BRANCH), near), "NOP", near + " INY"]
            b.append("P%d:" % i)
            pieces.append(b)
        rng.shuffle(pieces)
        jobs.append(J(lines(*sum(pieces, []))))
    c.family("references across origins", jobs, FULL)
    others(c, "C05", FULL)
    m2.finish()
    mr.finish()

# ------------------------------------------------------------------ C06
def c06(c):
    c.start()
    m2 = c.model("MCtop", CODE, consts={"Depth": 4 if c.thorough else 3}, limit=60000)
    mr = c.model("MCrefs", CODE + ["kind", "where"], limit=4000)
    m3 = c.model("MCbranches", CODE + ["kind", "where"], consts={"Depth": 5 if c.thorough else 4}, limit=80000 if c.thorough else 9000)
    rng = c.rng
    asp = CODE + ["kind", "where"]
    offs = sorted(set(range(-140, 141)))
    hot = [o for o in offs if abs(o) >= 120 or abs(o) < 4]
    jobs = []
    def layouts(m, pc, o):
        """branch at pc, target at pc + 2 + o, in all ways of making it so"""
        t = pc + 2 + o
        if not 0 <= t <= 0xffff: return
        yield lines("T = %d" % t, "*=%d" % pc, "%s T" % m)                    # constant, known
        yield lines("*=%d" % pc, "%s T" % m, "T .EQU %d" % t)                  # constant, later
        if t <= pc or t >= pc + 2:
            yield lines("*=%d" % t, "T", "*=%d" % pc, "%s T" % m)               # address, known
            yield lines("*=%d" % pc, "%s T" % m, "*=%d" % t, "T:")             # address, later
            yield lines("*=%d" % pc, "%s T" % m, "*=%d" % t, "T NOP")
        if 0 <= o < 200:                                                       # real code between
            yield lines("*=%d" % pc, "%s T" % m, *["CLC"] * o, "T RTS")
        if -200 < o <= -2:
            yield lines("*=%d" % t, "T" , *["SEC"] * (-2 - o), "%s T" % m)
    for o in offs:
        ms = BRANCH if o in hot and (c.thorough or abs(abs(o) - 128) <= 3) else [rng.choice(BRANCH)]
        for m in ms:
            for pc in [rng.choice((0x90, 0xf0, 0x100, 0x1234, 0x7ff0, 0x8000, 0xfe00))] if not c.thorough else (0x90, 0xf0, 0x7ff0, 0xfe00):
                jobs += [J(p) for p in layouts(m, pc, o)]
    # the limits at every position within a page
    edge = {(b + e - 2 - o) & 0xff for o in (-129, -128, 127, 128) for b in (0, 0x80) for e in (-1, 0, 1)} | {0, 1, 0x7f, 0x80, 0xfe, 0xff}
    for pc in range(256) if c.thorough else sorted(edge | set(rng.sample(range(256), 30))):
        for o in (-129, -128, 127, 128):
            for base in (0x100, 0x7e00 if c.thorough else rng.choice((0x200, 0x7f00, 0xfd00))):
                t = base + pc + 2 + o
                m = rng.choice(BRANCH)
                jobs.append(J(lines("T = %d" % t, "*=%d" % (base + pc), "%s T" % m)))
                jobs.append(J(lines("*=%d" % (base + pc), "%s T" % m, rng.choice(("*=%d\nT", "T = %d")) % t)))
    c.family("displacements", jobs, asp)
    # far targets: no wrap-around at any distance
    jobs = []
    for pc in (0, 1, 0x7f, 0x80, 0x100, 0x7fff, 0x8000, 0xff00, 0xff80, 0xfff0, 0xfffe):
        for t in (0, 1, 0x7f, 0x80, 0x81, 0x100, 0x7fff, 0x8000, 0xff00, 0xff7f, 0xff80, 0xffff) + \
                 tuple((pc + 2 + d + e) & 0xffff for d in (256, -256, 512, 0x8000, 0x1000) for e in (0, 5, -5, 127, -128)):
            m = rng.choice(BRANCH)
            jobs.append(J(lines("T = %d" % t, "*=%d" % pc, "%s T" % m)))
            jobs.append(J(lines("*=%d" % pc, "%s T" % m, "T = %d" % t)))
    c.family("far targets", sample(c, jobs, 600), asp)
    # several branches resolved in one program
    jobs = []
    for _ in range(1500 if c.thorough else 200):
        n = rng.randrange(2, 12)
        ls = ["*=%d" % rng.randrange(0, 0x8000)]
        for i in range(n):
            ls += ["%s L%d" % (rng.choice(BRANCH), rng.randrange(n + 1))]
            ls += [rng.choice(("NOP", "LDA #3", "STA $1234"))] * rng.randrange(0, 14)
            ls += ["L%d" % i]
        ls.append("L%d RTS" % n)
        jobs.append(J(lines(*ls)))
    c.family("many branches", jobs, asp)
    others(c, "C06", asp)
    m2.finish()
    m3.finish()
    mr.finish()

# ------------------------------------------------------------------ C07
PLACES = ["LDA #{}", "LDA {}", "JMP {}", "STA {},X", "L = {}\nJMP L", "L .EQU {}\nJMP L",
          ".DEFINE L {}\nJMP L", "*={}\nL\n*=3\nJMP L", ".ORG {}\nL\n*=3\nJMP L", "JMP ({})", "LDX ({},X)", "BNE {}"]

def literal_strings(rng, thorough):
    for v in BOUND + [rng.randrange(65536) for _ in range(200 if thorough else 40)]:
        for s in ("$%x", "$%X", "$%04x", "%d", "%05d", "$%020X", "%030d"):
            yield s % v
        yield "%" + bin(v)[2:]
        yield "%" + bin(v)[2:].zfill(16)
        yield "%" + bin(v)[2:].zfill(70)
    for e in (16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 66, 80, 96, 128, 160, 256):
        for d in (-1, 0, 1, 2, 5, 255, 256, 65535, 65536):
            v = (1 << e) + d
            yield "$%x" % v; yield "%d" % v; yield "%" + bin(v)[2:]
        for k in (3, 5, 10, 15):
            yield "%d" % (k * (1 << e) + rng.randrange(300)); yield "$%X" % (k * (1 << e) + rng.randrange(300))
    for n in range(1, 71):
        yield "$" + "0" * n; yield "%" + "0" * n; yield "0" * n
        yield "$" + "0" * n + "7"; yield "%" + "0" * n + "1"; yield "0" * n + "9"
        yield "$" + "f" * n; yield "%" + "1" * n; yield "9" * n; yield "1" + "0" * n; yield "$1" + "0" * n
        yield "%1" + "0" * n

def bad_literals(rng, thorough):
    for s in ("$", "%", "$$1", "%%1", "$%1", "%$1", "$ 1", "% 1", "$-1", "-1", "+1", "0x10", "0b1", "10h", "$1h", "&10",
              "1.5", "1e3", "$1.", "%12", "%2", "%102", "%1a", "12a", "1a", "a1$", "1$", "1%", "$g", "$1G2", "$ffg", "$fffffg", "1_0",
              "$1_0", "%1_0", "$'1", "'1'", "\"1\"", "1:", "$1:", "%1:", "1#", "$1#", "1=", "1*2", "1+2", "0$1", "0%1", "1.", "$.", "%.",
              "99999a", "$12345z", "65536x", "$O1", "%l", "1l", "O", "$fffff_", "%2" + "0" * 20, "$@", "%/", "$`", "$G", "$:", "9:", "$[", "1 2", "$1 $2", "%1 1"):
        yield s
    for base, good, ch in (("$", "0123456789abcdefABCDEF", "gGzZ_@`:/[{"), ("%", "01", "23456789aAfF_/:"), ("", "0123456789", "aAbBfFgG_/:xX")):
        for c in ch:
            for n in (0, 1, 3, 20):
                w = [rng.choice(good) for _ in range(n)]
                w.insert(rng.randrange(len(w) + 1), c)
                s = base + "".join(w)
                if base or s[0].isdigit():
                    yield s

def c07(c):
    c.start()
    m2 = c.model("MCDigits", CODE, consts={"Depth": 3 if c.thorough else 2}, spec="MCChars.tla")
    rng = c.rng
    jobs = []
    lits = list(literal_strings(rng, c.thorough))
    # all in the place that shows the whole value, and each in one other
    for s in lits:
        jobs.append(J(lines("JMP " + s)))
        p = rng.choice(PLACES)
        jobs.append(J(lines(p.format(s))))
    c.family("digit strings", jobs, CODE)
    jobs = []
    for s in bad_literals(rng, c.thorough):
        for p in (PLACES if c.thorough else rng.sample(PLACES, 3)):
            jobs.append(J(lines(p.format(s))))
    c.family("not literals", jobs, CODE)
    jobs = []
    for n in (1, 2, 3, 7, 12, 16, 28, 30, 31, 32, 33, 40, 55, 60, 61, 62, 63, 64, 65, 100, 123, 124, 127, 128, 250, 255, 256, 1000, 4096, 65535, 65536, 1000000):
        for b in ("$", "%", ""):
            v = rng.choice((0, 1, 9, 200, 255, 256, 4660, 65535, 65536, 70000))
            l = b + "0" + {"$": "%x", "%": "{:b}", "": "%d"}[b].replace("{:b}", bin(v)[2:]).replace("%x", "%x" % v).replace("%d", "%d" % v)
            p = rng.choice(("LDA ", "JMP ", "LDX #", "*=", "K = ", "STA (", "CMP $7,X\nADC "))
            t = p + l + {"STA (": ",X)", "K = ": "\nLDA K"}.get(p, "")
            jobs.append(J(t, stretch=(len(p) + len(b), n)))
    c.family("leading zeros", jobs, CODE)
    # every value in every base, shown through an absolute operand
    vals = list(range(65536)) if c.thorough else sorted(rng.sample(range(65536), 1500))
    jobs = []
    for b in batches(vals, 100):
        jobs.append(J(lines(*["JMP $%x" % v for v in b])))
        jobs.append(J(lines(*["JSR %d" % v for v in b])))
        jobs.append(J(lines(*["JMP (%s)" % ("%" + bin(v)[2:]) for v in b])))
        if c.thorough: jobs.append(J(lines(*["JMP " + num(rng, v) for v in b])))
    c.family("all values", jobs, CODE)
    # what stands next to a literal
    jobs = []
    for s in ("$1f", "%101", "77", "$FFFF", "65535", "65536", "$10000"):
        for end in ("", " ", "\t", ";", ";x", "\r", " ;", ",X", ", X", ",x;", ")", "(", "=", "#", ":", ".", "_"):
            jobs.append(J("LDA " + s + end + "\nNOP\n"))
            jobs.append(J("JMP " + s + end))
    bad = ["$", "%", "$G", "%2", "1A", "$1G", "%12", "0x1", "$$1", "%%0", "1.", "$_", "12_3", "$1_2", "%1_0"]
    ends = ["", " ", "\t", ";", ";x", "\r", " ;", ",X", ", X", ",Y", ",x;", ")", "),Y", ",X)", "(", "=", "#", ":", ".", "_", "$", "%", "*", "1", "\x0b", "-1", "+1"]
    for s in bad:
        for end in ends:
            for h in (("LDA ", "JMP ", "STA (", "CPX #", "K = ", "*=", ".DEFINE K ", "BEQ ") if c.thorough else
                      rng.sample(("LDA ", "JMP ", "STA (", "CPX #", "K = ", "*=", ".DEFINE K ", "BEQ "), 2)):
                jobs.append(J(h + s + end + rng.choice(("", "\n", "\nNOP\n"))))
    for d in "0123456789abcdefABCDEF":
        jobs.append(J(lines("LDA #$" + d, "LDA #$1" + d, "LDA $%s00" % d, "LDA $%s%s%s%s" % (d, d, d, d))))
    for d in "0123456789":
        jobs.append(J(lines("LDA #" + d, "LDA #1" + d, "LDA " + d + "00", "LDA 1" + d * 3)))
    c.family("neighbours", jobs, CODE)
    # one more character behind digits, however many
    jobs = []
    for b, digs in (("$", "0123456789abcdefABCDEF"), ("%", "01"), ("", "0123456789")):
        for n in range(0, 21):
            for ch in "ghijklmnopqrstuvwxyzGHOQXZ@#$%&'\"`~!^*-+=_/\\|<>.:?[]{}" + ("abcdefABCDEF" if b != "$" else "") + ("23456789" if b == "%" else ""):
                if n < 6 or c.thorough or rng.random() < .25:
                    v = "0" * rng.randrange(n + 1) if rng.random() < .5 else ""
                    l = b + (v + "".join(rng.choice(digs) for _ in range(n)))[:n]
                    at = rng.choice(("LDA ", "JMP ", "CPX #", "K = ", "*=", ".DEFINE K ", ".ORG ", "STA ("))
                    jobs.append(J("NOP\n" + at + l + ch + {"STA (": ",X)"}.get(at, "") + rng.choice(("", "\n", " ;x\n"))))
                    if rng.random() < .3: jobs.append(J("NOP\n" + at + l[:len(b)] + ch + l[len(b):]))
    c.family("characters behind digits", jobs, CODE)
    others(c, "C07", CODE)
    if c.thorough:
        jobs = []
        for _ in range(20000):
            base = rng.choice("$%d")
            n = rng.choice((1, 2, 4, 5, 8, 16, 17, 20, 33, 64, 65, 120, 300))
            z = rng.randrange(n) if rng.random() < .5 else 0
            digs = "".join(rng.choice({"$": "0123456789abcdefABCDEF", "%": "01", "d": "0123456789"}[base]) for _ in range(n))
            s = ("" if base == "d" else base) + "0" * z + digs
            jobs.append(J(lines(rng.choice(PLACES[1:9]).format(s))))
        c.family("random strings", jobs, CODE)
    m2.finish()

# ------------------------------------------------------------------ C08
TOKENS = ["LBL", "LDA", "#", "(", ")", ",", "X", "Y", "A", "$12", "=", ".EQU", ".DEFINE", ".ORG", ".END", "*", "KN", "NOP", "JMP"]
def forms():
    I = [["LDA"], ["LDA", "A"]] + [["LDA", "#", o] for o in ("KN", "$12")] + [["LDA", o] for o in ("KN", "$12")]
    I += [["LDA", o, ",", r] for o in ("KN", "$12") for r in "XY"] + [["LDA", "(", o, ")"] for o in ("KN", "$12")]
    I += [["LDA", "(", o, ",", "X", ")"] for o in ("KN", "$12")] + [["LDA", "(", o, ")", ",", "Y"] for o in ("KN", "$12")]
    I += [["NOP"], ["ASL", "A"], ["JMP", "(", "KN", ")"], ["JMP", "LBL"]]
    F = [[], ["LBL"], [".END"], ["LBL", "=", "$12"], ["LBL", ".EQU", "$12"], [".DEFINE", "LBL", "$12"], [".ORG", "$12"], ["*", "=", "$12"]]
    return F + I + [["LAB"] + i for i in I]

def spell(rng, toks, tight=None):
    """tokens to text; blanks only where they are needed if tight"""
    s = ""
    for i, t in enumerate(toks):
        need = s and (s[-1].isalnum() or s[-1] == "_") and (t[0].isalnum() or t[0] in "_.$%#=*")
        if need or (s and not (tight if tight is not None else rng.random() < .5)):
            s += rng.choice((" ", " ", "\t", "  "))
        s += t
    return s

def any_bytes(rng, n):
    """texts with bytes that source texts do not usually have"""
    jobs = []
    odd = b"\0\0\xff\xff\r\r\x0b\x0c\x1a\x80\xa0\xe9\x7f\x1b?\n"
    for _ in range(n):
        k = rng.randrange(8)
        if k == 0: t = bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 5, 40))))
        elif k == 1: t = b"NOP\n" + bytes(rng.choice(b"\0\xff\r\n\t ;:.$%A") for _ in range(rng.randrange(1, 12)))
        elif k == 2:        # at the end of a line, of the text, behind a comment
            l = rng.choice(("NOP", "LDA #5", "L", "K = 3", "JMP L", "L:", ".END", "*=$10", "; c", "", "INX ; c", "L INY")).encode()
            o = bytes(rng.choice(odd) for _ in range(rng.choice((1, 1, 1, 2, 3))))
            t = b"LDX #1\n" + l + o + rng.choice((b"", b"\n", b"\r\n", b"INX", b"\nINX\n", b" ; c\nINX\n"))
        elif k == 3:        # another line ending throughout
            t = prog(rng, rng.randrange(1, 12)).encode("latin1").replace(b"\n", rng.choice((b"\r", b"\r\r\n", b"\n\r", b"\0", b"\x0b", b"\xff\n", b"\x1a")))
        elif k == 4:        # in a comment, whatever its length
            c = bytearray(b"; " + b"LDA #1 " * rng.choice((0, 1, 5, 17, 18, 19, 36, 37, 80)))
            for _ in range(rng.randrange(1, 5)): c[rng.randrange(2, len(c) + 1):0] = bytes([rng.choice(odd[:-1])])
            t = b"L: NOP " + bytes(c) + b"\nJMP L\n"
        else:
            t = bytearray(prog(rng, rng.randrange(1, 12)).encode("latin1"))
            for _ in range(rng.choice((1, 1, 2))):
                i = rng.randrange(len(t) + 1)
                if k == 5: t[i:i] = bytes([rng.choice(odd)])
                else: t[i:i + 1] = bytes([rng.choice(odd)])
            t = bytes(t)
        jobs.append(J(t))
    return jobs

def c08(c):
    c.start()
    m3 = c.model("MCBytes", CODE, consts={"Depth": 3 if c.thorough else 2}, spec="MCChars.tla")
    m2 = c.model("MCWords", CODE, consts={"Depth": 3 if c.thorough else 2}, spec="MCChars.tla")
    mr = c.model("MCTokens", CODE, consts={"Depth": 4 if c.thorough else 3}, limit=120000, spec="MCTokens.tla")
    rng = c.rng
    head, tail = ["KN = $34", "LDX #1"], ["INY"]
    def job(s):
        return J(lines(*head, s, *tail))
    jobs = []
    for f in forms():
        jobs.append(job(spell(rng, f, True))); jobs.append(job(spell(rng, f, False)))
        for i in range(len(f) + 1):
            for t in (TOKENS if c.thorough or i == len(f) else rng.sample(TOKENS, 4)):
                jobs.append(job(spell(rng, f[:i] + [t] + f[i:])))          # insert
            for t in (TOKENS if c.thorough else rng.sample(TOKENS, 3)):
                jobs.append(job(spell(rng, f[:i] + [t] + f[i + 1:])))      # replace
            jobs.append(job(spell(rng, f[:i] + f[i + 1:])))                # leave out
            jobs.append(job(spell(rng, f[:i])))                            # stop
            jobs.append(job(spell(rng, f[:i] + f[max(0, i - 1):])))        # double
        for n in (1, 2, 3, 5, 8, 20):
            jobs.append(job(spell(rng, f + [rng.choice(TOKENS) for _ in range(n)])))
    c.family("near the forms", jobs, CODE)
    jobs = []
    for _ in range(30000 if c.thorough else 2000):
        jobs.append(job(spell(rng, [rng.choice(TOKENS) for _ in range(rng.randrange(2, 11))])))
    c.family("random token lines", jobs, CODE)
    # behind mnemonics of every kind
    jobs = []
    syms = ["#", "(", ")", ",", "X", "Y", "A", "$12", "KN"]
    for kind, part in ((("ASL", "LSR", "ROL", "ROR"), 1), (("INX", "CLC", "BRK", "RTS"), .12), (("BNE", "BCS"), .12), (("JMP",), .12), (("JSR",), .12),
                       (("STX", "STY", "STA"), .12), (("CPX", "CPY", "BIT"), .12), (("LDX", "LDY", "ADC", "DEC"), .12)):
        for n in (0, 1, 2, 3, 4, 5):
            for t in itertools.product(syms, repeat=n) if n < 4 else ([rng.choice(syms) for _ in range(n)] for _ in range(4000 if c.thorough else 40)):
                if c.thorough or n < 2 or rng.random() < part or (t[0] == "A" and part < 1 and n == 2):
                    jobs.append(job(spell(rng, ([rng.choice(("LBL", "LBL:"))] if rng.random() < .2 else []) + [rng.choice(kind)] + list(t))))
    for m in ("ASL", "LSR", "ROL", "ROR"):
        for t in itertools.product(syms + ["INX", "LBL", "="], repeat=2):
            jobs.append(job(spell(rng, [m, "A"] + list(t)))) if c.thorough or rng.random() < .6 else None
    c.family("behind every kind of mnemonic", jobs, CODE)
    # colons, stray characters, glued tokens
    jobs = []
    for f in forms():
        s = spell(rng, f)
        for _ in range(30 if c.thorough else 8):
            i = rng.randrange(len(s) + 1)
            ch = rng.choice(":::!\"&'+-./<>?@[\\]^`{|}~_0a;#(),=*$% \t\x0b\x0c\x7f\x80\xe9\x1b")
            jobs.append(job(s[:i] + ch + s[i:]))
            if i < len(s): jobs.append(job(s[:i] + ch + s[i + 1:]))
            if i < len(s): jobs.append(job(s[:i] + s[i + 1:]))
    for s in ("LBL:", "LBL :", "LBL: :", "LBL::", ":", ": NOP", "NOP:", "NOP :", "LBL: NOP", "LBL:NOP", "LBL: LBL2: NOP", "X:", "A: NOP",
              "LDA:#1", "LDA #1:", "LDA KN:", "LBL: = 3", "LBL:=3", "LBL: .EQU 4", ".END:", ".DEFINE LBL: 3", ".ORG: 3", "*: = 3", "*=3:",
              "LBL:;", "LBL: ;x", "LBL;: x", "LDA KN;,X", "LDA KN ,;X", "LDA(KN,X)", "LDA(KN),Y", "LDA#3", "LDA$12", "LDA%1", "LDA KN,X;Y",
              "LBL=3", "LBL= 3", "LBL =3", "*=3", "* =3", "**=3", "*==3", ".ORG3", ".ORG$3", ".ORG 3 4", ".ORG KN", "*=KN", "LBL=KN", "LBL = NOP",
              "NOP NOP", "NOP LBL", "LBL LBL", "A", "X", "Y NOP", ".", "..", ".EQU 3", ".EQU", ".DEFINE", ".DEFINE LBL", ".DEFINE 3 LBL",
              ".DEFINE LBL = 3", ".DEFINE LBL 3 4", ".DEFINE NOP 3", ".DEFINE X 3", "LBL .ORG 3", "LBL .END", ".END NOP", ".END .END", "LBL *=3", "LBL * = 3",
              "ASL A,X", "ASL A A", "ASL (A)", "ASL #A", "LDA A", "LDA X", "LDA ,X", "LDA #", "LDA # #1", "LDA ##1", "LDA (KN", "LDA KN)", "LDA ()", "LDA (KN))",
              "LDA ((KN))", "LDA (KN,Y)", "LDA (KN),X", "LDA (KN,X", "LDA (KN,X),Y", "LDA (#1)", "LDA (#1,X)", "LDA #(1)", "LDA #1,X", "LDA 1,2", "LDA 1,", "LDA 1,A",
              "LDA KN KN", "LDA KN,X,Y", "LDA KN,XY", "LDA KN,X Y", "LDA KN X", "LDA (KN) Y", "LDA (KN)Y", "LDA (KN X)", "JMP (KN) KN", "JMP (KN),", "JMP KN,", "BNE", "JMP", "BNE #3", "JMP #3"):
        jobs.append(job(s)); jobs.append(job("  " + s.lower() + "  ; c")); jobs.append(J(s))
    c.family("characters", jobs, CODE)
    # every pair of characters that begin nothing, and signatures of other kinds of texts
    jobs = []
    punct = "!\"&'+-./<>?@[\\]^`{|}~_:=*#,$%"
    for a in punct:
        for b in punct:
            l = rng.choice(("NOP", "LDA #1", "L: INX", "K = 3", "JMP KN", "", "LDA KN,X"))
            jobs.append(job(l + rng.choice((" ", "", "  ")) + a + b + rng.choice((" ", "", " text", "LDA #2", " LDA #2"))))
    for s in ("/* c */", "// c", "-- c", "REM c", "rem", "* c", "*** c", "!c", "# c", "#include", "\"c\"", "'c'", "@c", "\\", "<c>", "{ }", "[c]", "||", "&c"):
        for l in ("NOP ", "", "LDA KN ", "\t", "LBL: ", "K = 3 "):
            jobs.append(job(l + s))
            jobs.append(J(l + s + "\nNOP\n")); jobs.append(J("NOP\n" + l + s))
    for s in ("\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xff", "\xef\xbb", "\xbb\xbf", "#!/bin/gaia\n", "#!", "\x1b", "\x0c", "\x1a", "\xc2\xa0", "\xe2\x80\x8b", "\x00", "\x7fELF", "\x1f\x8b"):
        for l in ("NOP\n", "L: LDA #1\n", "; c\nNOP\n", "", " NOP\n", "\nNOP\n"):
            jobs.append(J(s + l)); jobs.append(J(l + s)); jobs.append(J(l + s + "INX\n")); jobs.append(J(l + s + "\n"))
    c.family("marks of other languages", jobs, CODE)
    c.family("any bytes", any_bytes(rng, 8000 if c.thorough else 700), CODE)
    others(c, "C08", CODE)
    m2.finish()
    m3.finish()
    mr.finish()

# ------------------------------------------------------------------ C09
def relayout(rng, ls, eol, final, k):
    """another layout of the same lines"""
    out = []
    for l in ls:
        code, semi, com = l.partition(";")
        if k & 1: code = recase(rng, code)
        if k & 2:
            code = "".join(rng.choice((" ", "\t", "   ", " \t ", "\t\t")) if ch in " \t" else ch for ch in code)
            code = rng.choice(("", " ", "\t", "     ")) + code + rng.choice(("", " ", "\t  "))
        if k & 4:
            semi, com = rng.choice((("", ""), (";", ""), (";", " ; LDA #1"), (";", "'\"(),:#$%=*.end"),
                                    (";", " " + "x" * rng.randrange(400)), (";", "\tJMP $FFFF" * rng.randrange(60)),
                                    (";", "\xe9\x80 caf\xe9")))
        out.append(code + semi + com)
        if k & 8:
            for _ in range(rng.randrange(3)):
                out.append(rng.choice(("", " ", "\t\t", ";", "; NOP", "  ;x", ";" + "-" * rng.randrange(300), " " * rng.randrange(300))))
    if k & 16:
        out = [rng.choice(("", "\t", " ")) * rng.randrange(200) + o for o in out]
    t = eol.join(out) + (eol if final else "")
    return t

def c09(c):
    c.start()
    mr = c.model("MClayout", CODE + ["total", "nsyms"], consts={"Depth": 3 if c.thorough else 2})
    mh = c.histories("MCReader", "MCReader.tla")
    rng = c.rng
    asp = CODE + ["total", "nsyms"]
    jobs = []
    for _ in range(400 if c.thorough else 45):
        p = Prog(rng, rng.randrange(4, 25), style=rng.random() < .5)
        for k in rng.sample(range(32), 10):
            jobs.append(J(relayout(rng, p.ls, rng.choice(("\n", "\n", "\r\n")), rng.random() < .7, k)))
    c.family("layouts", jobs, asp)
    # line lengths around every power of two
    jobs = []
    codes = ["LDA #$12", "LBL: STA $1234,X", "JMP LBL2", "BNE LBL", "K = $77", ".ORG $300", "", "; c"]
    lens = sorted(set(list(range(118, 136)) + list(range(250, 262)) + [62, 63, 64, 65, 380, 381, 382, 383, 384, 385, 508, 509, 510, 511, 512, 513, 1020, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097] +
                      ([8191, 8192, 8193, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 100000] if c.thorough else [])))
    for n in lens:
        for code in codes if c.thorough else rng.sample(codes, 3):
            if n < len(code): continue
            rest = n - len(code)
            comment = "; " + ("NOP\tINX : JMP $1 ;" * (rest // 8 + 1))
            for l in (code + comment[:rest] if rest >= 2 else code,         # comment reaches the length
                      " " * rest + code,                                    # code ends at it
                      code + " " * rest):                                   # blanks reach it
                fin = rng.choice(("\n", "\n", "", "\r\n"))
                jobs.append(J("LBL0 NOP\n" + l + fin + ("RTS\nLBL2: INY\n" + ("LBL INX\n" if "LBL:" not in l else "") if fin else "")))
        # code across the length
        for code in ("\tLDA $1234", "L1 STA ($12),Y", "LDX #$AB"):
            j = rng.randrange(1, len(code))
            jobs.append(J("CLC\n" + " " * max(0, n - j) + code + "\nSEC\n"))
        jobs.append(J("CLC\n" + "LDA" + " " * max(1, n - 8) + "$1234" + " " * 5 + ";" + "INX " * (n // 4) + "\nSEC"))
    for n in () if c.thorough else (8192, 16384, 32768, 65535, 65536, 65537, 70000, 140000):
        fill = "; " + "NOP\tINX : JMP $1 ;" * (n // 8 + 1)
        k = rng.randrange(3)
        jobs.append(J("LBL0 NOP\n" + ("LBL: STA $1234,X" + fill[:n - 16], " " * (n - 16) + "LBL: STA $1234,X", " " * (n - 8) + "LBL: STA $1234,X")[k] + "\nRTS\nLBL2: INY\n"))
    c.family("line lengths", jobs, asp)
    c.family("very long lines", stretched(rng, (1, 60, 300, 5000, 70000, 2000000) + ((100, 1000, 20000, 10000000) if c.thorough else ()), 1), asp + ["kind", "where"])
    c.family("histories of the line reader", reader_programs(rng, sample(c, mh.finish(), 500, 3000)), asp)
    # words and numbers next to comments, blanks and line ends
    jobs = []
    for code in ("NOP", "ASL A", "LDA #$1F", "LDA 20", "STA %11,X", "LDA (3),Y", "LDA (3,X)", "JMP L", "L2", "L2:", "L2 = 3", "L2 .EQU 4", ".DEFINE L2 5", ".ORG 6", "*=7", ".END"):
        for b in ("", " ", "\t", "\t \t", " " * 100):
            for com in ("", ";", "; x", ";;", ";:", ";\t", "; " + "y" * 200, ";\\", ";\x01\x7f\xc3\xa9"):
                for e in (("\n", "\r\n") if c.thorough else (rng.choice(("\n", "\r\n")),)):
                    jobs.append(J("L: INX" + e + code + b + com + e + "INY"))
                    jobs.append(J("L: INX" + e + b + recase(rng, code) + com))
    c.family("comments and ends", sample(c, jobs, 900), asp)
    jobs = [J(t) for t in ("", "\n", "\n\n\n", " ", "\t", ";", "; c", "\r\n", "\r\n\r\n", " \n\t\n;\n", "NOP", "\nNOP", "NOP\n\n", "\n\n\nNOP\n\n\n",
                           "NOP\r\nINX\r\n", "NOP\r\nINX", "NOP\nINX\r\n", "; only\r\n; comments", "\n" * 500 + "NOP", "NOP\n" + "\n" * 500, " \n" * 300 + "NOP ;" + "z" * 5000)]
    c.family("empty texts", jobs, asp)
    # no byte of a comment is assembled or ends it
    jobs = []
    for b in range(256):
        if b == 10: continue
        n = rng.choice((0, 3, 100, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 250, 251, 252, 253, 254, 255, 256, 600))
        jobs.append(J(b"L: INX ; " + b"x" * n + bytes([b]) + rng.choice((b"", b" INX", b"INX ")) + rng.choice((b"\n", b"\r\n")) + b"JMP L\n"))
        jobs.append(J(b";" + b"x" * n + bytes([b]) * rng.choice((1, 2, 130)) + b" INX\n L: JMP L"))
    c.family("bytes in comments", jobs, asp)
    # rulers and boxes, also as the last of the text
    jobs = []
    for ch in ";-=*#/+~_.:!|&%$(){}[]<>,'\"\\ \t":
        for n in list(range(1, 9)) + [16, 40, 63, 64, 72, 78, 79, 80, 120]:
            if n < 9: jobs.append(J(rng.choice(("", "INX\n", "NOP ")) + ";" + ch * n))
            if c.thorough or rng.random() < .5:
                com = ";" + rng.choice(("", " ", ";")) + ch * n + rng.choice(("", ";", " NOP", " x ;"))
                l = rng.choice(("NOP ", "L: ", "", "\t", "LDA #1", "K = 5 ", "*=9 "))
                jobs.append(J(rng.choice(("", "INX\n", com + "\n")) + l + com + rng.choice(("", "", "\n", "\r\n", "\nINY\n", "\n" + com))))
                jobs.append(J("INX\n" + l + ";" + ch * n + rng.choice(("", "\n"))))
    c.family("rulers", jobs, asp)
    others(c, "C09", asp)
    mr.finish()

# ------------------------------------------------------------------ C10
def c10(c):
    c.start()
    m2 = c.model("MCWords", CODE + ["nsyms"], consts={"Depth": 3 if c.thorough else 2}, spec="MCChars.tla")
    mr = c.model("MClabels", CODE, consts={"Depth": 3}, limit=12000)
    rng = c.rng
    asp = CODE + ["nsyms"]
    base = "Q" + "".join(ALNUM[i * 7 % 63] for i in range(80))
    jobs = []
    uses = ["{0} = $21\nLDA #{0}", "{0}:\nJMP {0}", "NOP\n{0} LDA #2\nBNE {0}", ".DEFINE {0} $1234\nSTA {0},X", "JMP {0}\n{0}", "BEQ {0}\nNOP\n{0}: NOP", "{0} .EQU 9\nLDX ({0},X)", "JMP ({0})\n{0} = $4567"]
    for n in list(range(1, 8)) + [15, 16, 17, 31, 32, 33, 47, 48, 60, 61, 62, 63, 64, 65, 66, 70, 79]:
        for u in uses if c.thorough or n > 60 else rng.sample(uses, 4):
            jobs.append(J(lines(u.format(base[:n]))))
            jobs.append(J(u.format(base[:n]).replace("\n", " ;x\n")))
        jobs.append(J(base[:n])); jobs.append(J(base[:n] + ":")); jobs.append(J(base[:n] + " ;")); jobs.append(J("  " + base[:n] + ":;"))
        jobs.append(J(lines("LDA " + base[:n]))); jobs.append(J(lines("LDA #" + base[:n] + "\n"))); jobs.append(J("JMP (" + base[:n] + ")\n" + base[:n] + "=1"))
        jobs.append(J("LDA 3," + base[:n] + "\n")); jobs.append(J("NOP " + base[:n])); jobs.append(J("." + base[:n]))
    c.family("name lengths", jobs, asp)
    # two names of one length that differ in one place only, and prefixes
    jobs = []
    for n in (1, 2, 3, 4, 5, 8, 15, 16, 17, 20, 31, 32, 33, 40, 50, 61, 62, 63):
        w = base[:n]
        for i in range(n) if c.thorough or n in (62, 63) else sorted(set(rng.sample(range(n), min(n, 6)) + [0, n - 1])):
            for ch in rng.sample(ALNUM[:52] if i == 0 else ALNUM, 2):
                v = w[:i] + ch + w[i + 1:]
                if v.upper() in RESERVED or w.upper() in RESERVED: continue
                jobs.append(J(lines(w + " = $1111", v + " = $2222", "JMP " + w, "JSR " + v)))
                jobs.append(J(lines("JMP " + v, "JMP " + w, w, v + ": NOP")))
        for k in range(1, n):
            if c.thorough or n < 9 or k in (1, n - 1, n // 2):
                if w[:k].upper() not in RESERVED:
                    jobs.append(J(lines(w[:k] + " = $1111", w + " = $2222", "JMP " + w, "JSR " + w[:k])))
                    jobs.append(J(lines(w + " = $1111", "JMP " + w[:k])))
                    jobs.append(J(lines(w[:k] + " = $1111", "LDA " + w)))
    # names that are alike but for one place, all of them at once
    for n in (2, 3, 4, 8, 9, 16, 17, 32, 33, 62, 63):
        for i in {n - 1, n - 2, rng.randrange(1, n)} - {0}:
            vs = [base[:i] + ch + base[i + 1:n] for ch in ALNUM if not ch.islower()]
            vs = [v for v in vs if v.upper() not in RESERVED]
            rng.shuffle(vs)
            k = rng.choice((5, 8, 16, len(vs)))
            us = vs[:k]
            rng.shuffle(us)
            jobs.append(J(lines(*["%s = %d" % (v, 1000 + j) for j, v in enumerate(vs[:k])], *["JMP " + v for v in us])))
            jobs.append(J(lines(*["JMP " + v for v in us], *["%s = %d" % (v, 1000 + j) for j, v in enumerate(vs[:k])])))
            if k < len(vs): jobs.append(J(lines(*["%s = %d" % (v, 1000 + j) for j, v in enumerate(vs[:k])], "LDA " + vs[k])))
    for _ in range(300 if c.thorough else 60):
        w = name(rng, 1, 63)
        jobs.append(J(lines(recase(rng, w) + " = $3344", "JMP " + recase(rng, w), recase(rng, "jsr ") + recase(rng, w))))
        jobs.append(J(lines(recase(rng, w) + " = $3344", recase(rng, w) + " NOP")))
    for a, b in (("A_", "A0"), ("AZ", "B9"), ("A_1", "A1_"), ("L1", "L10"), ("L01", "L1"), ("AB", "BA"), ("I", "l"), ("O", "Q0"), ("_A", "A"), ("A_", "A__"), ("a", "b"), ("1A", "A1")):
        jobs.append(J(lines(a + " = $1111", b + " = $2222", "JMP " + a, "JSR " + b)))
    c.family("distinct names", jobs, asp)
    # reserved words, and names around them
    jobs = []
    for w in MNEM + ["A", "X", "Y"]:
        vs = {w, w + "_", "_" + w, w + "1", w + "A", "Q" + w, w[:-1], w[1:], w + w, w + "X", w[:-1] + "Q", w[:2] + "1", "A" + w, w[::-1], w + "0", w + ":", w + "_1", w + "Y"}
        for v in sorted(v for v in vs if v):
            v = recase(rng, v)
            forms_ = ["%s = 5\nLDA #%s" % (v, v), "%s: INX\nJMP %s" % (v, v), ".DEFINE %s 3\nSTA %s" % (v, v), "JMP %s\n%s = 7" % (v, v),
                      "%s" % v, "LDA %s" % v, "JMP %s" % v, "%s NOP" % v, "%s #1" % v, "%s $1234" % v, "LAB %s" % v, "%s: = 3" % v, "LDA 5,%s" % v]
            for f in forms_ if c.thorough or v.upper() == w else rng.sample(forms_, 2):
                jobs.append(J(lines(f)))
    c.family("reserved words", jobs, asp)
    # characters that may not stand in names
    jobs = []
    for o in list(range(0, 128)) + [0x80, 0xa0, 0xc3, 0xe9, 0xfe, 0xff]:
        ch = bytes([o]).decode("latin1")
        for s in ("LA%sB" % ch, "%sLAB" % ch, "LAB%s" % ch, "%s" % ch):
            jobs.append(J("%s = 3\nJMP LAB\nLAB NOP\n" % s)); jobs.append(J("NOP\nJMP %s\nLAB INX\n" % s)); jobs.append(J("%s\n" % s))
    c.family("characters in names", sample(c, jobs, 900), asp)
    others(c, "C10", asp)
    m2.finish()
    mr.finish()

# ------------------------------------------------------------------ C11
ERR = [  # (line, lines that must stand before)
    ("LDA !", []), ("NOP @", []), ("L1 = $1G", []), ("LDA %2", []), ("LDA #$", []), ("LDA 12A", []), ("NOP:", []), ("LDA A:", []), ("LAB: LDA X:", []),
    ("LDA $10000", []), ("K = 65536", []), ("*=%10000000000000000", []),
    ("L" + "o" * 63, []), ("JMP L" + "o" * 70, []), (".FOO", []), (".OR", []), ("LAB .EQUAL 3", []), (".", []), (".ORG1 3", []),
    ("LDA LDA", []), ("LDA (3", []), ("LDA 3,", []), ("LDA 3,X,", []), ("LDA #", []), ("LDA 3)", []), ("STA ,X", []), ("X = 3", []), ("= 3", []), ("3", []),
    ("LAB =", []), ("LAB = LAB", []), ("LAB 3", []), (".DEFINE", []), (".DEFINE 3", []), (".DEFINE LAB", []), (".ORG", []), (".ORG LAB", []), (".END 3", []), (".EQU 3", []),
    ("*", []), ("* 3", []), ("*=", []), ("*=LAB", []), ("*=3 4", []), ("LDA 1 2 3 4 5 6 7 8 9 10", []), ("A B C D E F G H I J", []),
    ("DUP", ["DUP = 1"]), ("DUP: NOP", ["DUP"]), ("DUP .EQU 3", ["DUP NOP"]), (".DEFINE DUP 3", ["DUP = 1"]), ("dup = 2", [".DEFINE DUP 1"]),
    ("LDA NEW", []), ("LDA #NEW", []), ("STA NEW,X", []), ("LDA (NEW),Y", []), ("SELFLESS LDX NEW2", []),
    ("STA #1", []), ("NOP 3", []), ("JSR (3)", []), ("LDX 3,X", []), ("ASL #1", []), ("INC A", []), ("BNE 3,X", []), ("JMP NEW,X", []), ("JSR (NEW)", []), ("LDA #$100", []), ("LDA ($100),Y", []), ("LDA", []), ("BEQ $100", []),
    ("BNE FAR", ["FAR = $8000"]), ("LAB BPL FAR", ["FAR = $F000"]), ("BMI FAR", ["*=$9000", "FAR", "*=$10"]),
]
PENDERR = [("JMP MISS", []), ("BNE MISS", []), ("LAB JSR MISS", []), ("JMP (MISS)", []), ("BEQ FAR2", ["FAR2 = $9999"]), ("LAB: BCC FAR2", ["*=$300", "FAR2 NOP"])]
WIDE = [("JMP WIDE", ["*=$FFFF", "NOP", "WIDE"])]
FILL = ["NOP", "", "; comment", "LDA #1", "K{} = 3", "M{}", "P{}: INX", "\tSTA $1234 ; c", "JMP OKAY", "BNE OKAY", ".DEFINE D{} 7", "; " + "long " * 60]

def layout_err(rng, l, k):
    code = l
    if k & 1: code = "".join(rng.choice((" ", "\t", "   ", " \t")) if ch == " " else ch for ch in code)
    if k & 2: code = rng.choice((" ", "\t", "    ", "\t\t", "  \t ", "       \t", "        \t")) + code
    if k & 4: code = code + rng.choice((" ", "\t", "   ", " ; why", ";x", "\t;" + "y" * rng.randrange(200), " ;  \t "))
    if k & 8: code = recase(rng, code)
    return code

def c11(c):
    c.start()
    m2 = c.model("MCWords", DIAG, consts={"Depth": 3 if c.thorough else 2}, spec="MCChars.tla")
    m3 = c.model("MCBytes", DIAG, consts={"Depth": 3 if c.thorough else 2}, spec="MCChars.tla")
    mr = c.model("MCerrors", DIAG + ["source"], consts={"Depth": 4 if c.thorough else 3}, limit=80000)
    mh = c.histories("MCReader", "MCReader.tla")
    rng = c.rng
    jobs = []
    def program(l, before, after, n, eol="\n", tail=True, k=0):
        ls = list(before)
        for i in range(n):
            ls.append(rng.choice(FILL).format(len(ls)))
        ls.append(layout_err(rng, l, k))
        for i in range(rng.randrange(4)):
            ls.append(rng.choice(FILL).format(len(ls)))
        ls += after
        ls.append("OKAY: RTS")
        return eol.join(ls) + (eol if tail else "")
    reps = 6 if c.thorough else 2
    for l, before in ERR:
        for k in range(16):
            for _ in range(reps):
                jobs.append(J(program(l, before, [], rng.choice((0, 1, 2, 5, 20)), rng.choice(("\n", "\n", "\r\n")), k=k)))
        jobs.append(J("\n".join(before + [l]))); jobs.append(J("\n".join(before + [l, ""])))
    for l, after in PENDERR:
        for k in range(16):
            for _ in range(reps):
                jobs.append(J(program(l, [], after, rng.choice((0, 1, 2, 5, 20)), rng.choice(("\n", "\n", "\r\n")), k=k)))
        jobs.append(J("\n".join([l] + after))); jobs.append(J("\n".join(after[:0] + [l])))
    c.family("each error, each layout", jobs, DIAG)
    # several errors: the first one counts, pending references last
    jobs = []
    for _ in range(6000 if c.thorough else 700):
        ls = [rng.choice(FILL).format(i) for i in range(rng.randrange(1, 12))]
        for _ in range(rng.randrange(1, 5)):
            e, b = rng.choice(ERR + PENDERR * 3)
            i = rng.randrange(len(ls) + 1)
            ls[i:i] = [layout_err(rng, e, rng.randrange(16))]
            if rng.random() < .6: ls[:0] = [x for x in b if x.split()[0] not in " ".join(ls)]
        if rng.random() < .3: ls.append(".END")
        if rng.random() < .9: ls.insert(rng.randrange(len(ls) + 1), "OKAY: RTS")
        jobs.append(J("\n".join(ls) + rng.choice(("", "\n"))))
    # several pending references in error, in every order
    for (a, x), (b, y) in itertools.product(PENDERR + WIDE, repeat=2):
        for _ in range(8 if c.thorough else 2):
            b2 = b.replace("LAB", "LAB2")
            ls = [layout_err(rng, a, rng.randrange(16)), rng.choice(FILL).format(1), layout_err(rng, b2, rng.randrange(16)), rng.choice(FILL).format(2)]
            if rng.random() < .4: ls.insert(rng.randrange(4), rng.choice(("JMP OKAY", layout_err(rng, "BNE MISS", 1), "JSR MISS3")))
            ls += x + (y if y != x else [])
            if rng.random() < .2: ls.append(rng.choice(ERR)[0])
            jobs.append(J("\n".join(ls + ["*=$20", "OKAY: RTS", ""])))
    c.family("several errors", jobs, DIAG)
    c.family("any bytes", any_bytes(rng, 6000 if c.thorough else 300), DIAG)
    # line numbers
    jobs = []
    for n in (9, 10, 99, 100, 127, 128, 254, 255, 256, 257, 511, 512, 999, 1000) + ((4096, 9999, 32767, 32768, 65535, 65536, 65537, 70000, 100000) if c.thorough else (3000, 32768, 65536, 66000)):
        for l in ("LDA !", "JMP MISS", "STA #1") if c.thorough or n < 30000 else ("LDA !", "JMP MISS") if n > 65536 else (rng.choice(("LDA !", "JMP MISS", "STA #1")),):
            body = [rng.choice(("", ";", "", ";x")) for _ in range(n - 1)]
            jobs.append(J("\n".join(body + [l, "NOP", ""])))
    c.family("line numbers", jobs, DIAG)
    # columns: the same error behind every mix of blanks and in long lines
    jobs = []
    pads = ["", " "] + ["".join(p) for n in (1, 2, 3) for p in itertools.product("\t ", repeat=n)] + \
           [" " * n for n in (6, 7, 8, 9, 15, 16, 17, 31, 100, 126, 127, 128, 129, 300)] + \
           [" " * n for n in (255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096)] + \
           ["\t" * n for n in (15, 16, 31, 32, 33, 63, 64, 127, 128, 129, 255, 256, 512)] + \
           [" " * n + "\t" for n in range(1, 18)] + ["\t" * n for n in range(3, 12)] + ["\t" + " " * n + "\t" for n in range(1, 17)]
    for p in pads:
        for l in ("@", "LDA\t@", "LDA MISS", "JMP MISS", "A", "L1:\tJMP\tMISS", "LDA 3,\tZ", "LDA $1\t$2", "BNE\tFAR"):
            if rng.random() < (1 if c.thorough else .45):
                jobs.append(J("FAR = $7000\n" + p + l + rng.choice(("", " ", "\t", ";c", " ; " + "z" * 150)) + "\n"))
                if " " in l: jobs.append(J("FAR = $7000\n" + l.replace(" ", " " + p, 1) + "\nNOP\n"))
    c.family("columns", jobs, DIAG)
    # what the offending line ends with
    jobs = []
    for b in [x for x in range(1, 256) if x not in (9, 10, 13, 32)]:
        ch = bytes([b])
        for l, after in ((b"JMP NEVER", b"\nINX\n"), (b"\tBNE FAR", b"\n*=$900\nFAR INX\n"), (b"LDA !", b"\n"), (b"K = 5", b"\n"), (b"L STA #1", b""), (b" LDA UNKNOWN", b"\n"), (b"JSR ( K", b"\n"), (b"* 5", b"\n"), (b".DEF", b"")):
            if c.thorough or rng.random() < (.8 if b < 128 and l[0] in b"J\t" else .2):
                jobs.append(J(b"NOP\nK = 3\n" + l + b" ;" + rng.choice((b"", b"", b" ", b"xy", b"\t ")) + ch * rng.choice((1, 1, 2, 3, 8)) + rng.choice((b"", b"", b" ", b"\t", b"\r")) + after))
    c.family("ends of offending lines", jobs, DIAG)
    c.family("histories of the line reader", reader_programs(rng, sample(c, mh.finish(), 200, 3000), True), DIAG)
    # file names
    jobs = []
    for nm in ["a", "x.s", "with space.asm", "dir/p.asm", "./p.asm", "a:1", "p.asm.asm", "-x.asm", "ERROR", "%s%d.asm"] + ["n" * n for n in (15, 31, 32, 63, 64, 65, 127, 128, 200, 255)] + \
              [longname(n, "n") for n in (100, 255, 256, 257, 512, 1000, 1024, 2048, 3900)]:
        for l in ("LDA !", "JMP MISS", "STA #1"):
            jobs.append(J(lines("NOP", l), name=nm, args="dash"))
        jobs.append(J("", src="missing", name=nm, args="dash"))
    c.family("file names", jobs, DIAG)
    others(c, "C11", DIAG)
    m2.finish()
    m3.finish()
    mr.finish()

# ------------------------------------------------------------------ C12
IO = ["term", "verdict", "announce", "image", "size", "source", "outfile", "total"]
def c12(c):
    c.start()
    m2 = c.session("MCruns", {"MaxRuns": 3} if c.thorough else None)
    m1 = c.model("MCfaults", IO, consts={"Depth": 4 if c.thorough else 3}, limit=60000 if c.thorough else 9000)
    rng = c.rng
    texts = ["", "NOP\n", "LDA #1\nSTA $1234\nJMP F\nF RTS\n", "*=$10\nNOP\n", "BRK\n", "!\n", "JMP F\n", "K = 3\n", "LDA #1\nSTA #1\n", ".END\n"]
    texts += [prog(rng, n) for n in (3, 10, 40)]
    jobs = []
    for t in texts:
        for args in ("o", "last", "joined", "long", "longeq", "none", "twice", "dash"):
            for pre in (None, b"", b"old contents " * 30, b"\x00" * 5000):
                jobs.append(J(t, args=args, pre=pre))
            jobs.append(J("", src="missing", args=args, pre=b"precious"))
            jobs.append(J("", src="missing", args=args))
            jobs.append(J("", src="missing", args=args, tag="siblings", name=rng.choice(("p.asm", "p", "q.s")), pre=rng.choice((None, b"precious"))))
            jobs.append(J("", src="unreadable", args=args, pre=b"x"))
            jobs.append(J("", src="unreadable", args=args))
        for tag in ("", "dir"):
            jobs.append(J(t, out="uncreatable", tag=tag)); jobs.append(J("", src="missing", out="uncreatable", tag=tag))
        for tag in ("", "symlink", "hardlink", "path"):
            jobs.append(J(t, out="source", tag=tag))
        jobs.append(J(t, full=True))
    for n in (4096, 65535, 65536, 65537, 200000, 1 << 20, (1 << 20) + 1, 5000000):
        jobs += [J(t, pre=rng.choice((b"\xff", b"\0", b"old\n")) * n, args=a) for t in texts[1:4] for a in ("o", "none")]
    c.family("conditions", jobs, IO)
    # whatever makes a program fail, and programs around it that are accepted
    jobs = []
    for l, b in ERR:
        for pre in (None, b"old contents " * 30):
            jobs.append(J("\n".join(b + ["LDA #1", l, "RTS", ""]), pre=pre))
            jobs.append(J("\n".join(b + ["JMP F", l, "F", ""]), pre=pre, args=rng.choice(("o", "last", "none", "long"))))
            jobs.append(J("\n".join(b + ["JMP NEVER", "JMP F", "F = 1", l]), pre=pre))
    for l, a in PENDERR:
        for pre in (None, b"old contents " * 30):
            for x, y in (("", ""), ("JMP F", "F RTS"), ("BNE F", "F"), ("", ".END"), ("JMP F", "F = 3\nJMP MISS2")):
                jobs.append(J("\n".join([x, l] + a + [y, "NOP", ""]), pre=pre, args=rng.choice(("o", "last", "none", "long"))))
                jobs.append(J("\n".join([l, x] + a + [y, ""]), pre=pre))
                jobs.append(J("\n".join([x, l] + a + [y, "MISS = $20", ""]), pre=pre))
    c.family("programs that fail", jobs, IO)
    # the output can hold k bytes: for every k up to the size and beyond
    jobs = []
    progs = ["LDA #1\nSTA $1234\nJMP F\nNOP\nF RTS\n", "*=5\nLDA $1234\n", "JMP F\nJSR F\n.ORG 30\nF\n", "*=$20\nNOP\n*=0\nJMP ($1234)\n", "BRK\nBRK\n", "K = 1\n",
             "INX\nINY\n.ORG 9\nJMP Q\n*=4\nQ NOP\n"]
    for t in progs:
        for k in range(0, 48):
            jobs.append(J(t, cap=k, pre=rng.choice((None, b"")) ))
    for _ in range(40 if c.thorough else 6):
        t = Prog(rng, rng.randrange(20, 80), orgs=False).text()
        for k in rng.sample(range(0, 260), 30):
            jobs.append(J(t, cap=k))
    # sizes beyond one output buffer
    for n in (1365, 1366, 2000) + ((3000, 5461, 5462, 9000) if c.thorough else ()):
        t = "STA $1234\n" * n
        for k in sorted(set([0, 1, 4095, 4096, 4097, 8191, 8192, 3 * n - 4097, 3 * n - 4096, 3 * n - 3, 3 * n - 1, 3 * n, 3 * n + 1])):
            if k >= 0: jobs.append(J(t, cap=k))
        jobs.append(J(t, full=True))
    for at in (100, 4090, 4096, 9000):
        for k in (0, at - 1, at, at + 1, at + 2, at + 3, at + 4):
            jobs.append(J("JMP F\n*=%d\nJSR F\nF = 3\n" % at, cap=k))
    c.family("write faults", jobs, IO)
    # outputs that cannot be positioned
    jobs = [J(t, out="pipe", args=rng.choice(("o", "last", "joined", "long", "longeq", "twice", "dash"))) for t in texts + progs]
    jobs += [J(prog(rng, rng.randrange(3, 80)), out="pipe") for _ in range(400 if c.thorough else 60)]
    jobs += [J("\n".join(b + ["JMP F", l, "F", ""]), out="pipe") for l, b in ERR] + [J("\n".join([l] + a + [""]), out="pipe") for l, a in PENDERR]
    jobs += [J("JMP F\n" + "STA $1234\n" * n + "F RTS\n", out="pipe") for n in (1364, 1366) + ((2729, 21000) if c.thorough else ())]
    jobs += [J("*=$%X\nJMP F\nF RTS\n*=2\nNOP\n" % at, out="pipe") for at in (0xFFC, 0xFFD, 0x1000, 0x2000, 0xFFF0)]
    c.family("pipes", jobs, IO + ["image", "size", "total"])
    # a system call fails, for once or for good
    if not isinstance(c, Collector) and c.tracing():
        long = ["STA $1234\n" * n + x for n in ((900, 1366, 3000) if c.thorough else (1366,)) for x in ("", "JMP F\n*=7\nF RTS\n", "K = $1234\n" + "; text\n" * 900)]
        long += ["; %s\n" % ("x" * n) + "LDA #1\n" * k + "RTS" for n in (100, 4080, 4090, 9000) for k in (0, 3) + ((2000,) if c.thorough else ())]
        jobs = []
        for t in texts + progs + long:
            for fault in ["src:open,openat:EACCES:1", "out:open,openat,creat:EACCES:1", "out:close:EIO:1"] + \
                         ["out:W:%s:%d%s" % (rng.choice(("ENOSPC", "EIO", "EDQUOT")), n, p) for n in (1, 2, 3, 5) for p in ("", "+")] + \
                         ["src:R:%s:%d%s" % (rng.choice(("EIO", "ESTALE")), n, p) for n in (1, 2, 3, 5) for p in ("", "+")]:
                if c.thorough or len(t) < 100 or rng.random() < .5:
                    jobs.append(J(t, fault=fault, pre=rng.choice((None, b"", b"old contents " * 30)), args=rng.choice(("o", "last", "none"))))
        # (behind a read error for once, any more lines may follow)
        c.family("failing system calls", [j for j in jobs if not (j.fault.startswith("src:R") and j.fault[-1] != "+")], IO + ["image", "size"])
        c.family("reading fails for once", [j for j in jobs if j.fault.startswith("src:R") and j.fault[-1] != "+"], ["term", "verdict", "announce", "source"])
    # requests for memory that are refused
    if not isinstance(c, Collector) and c.nomem():
        jobs = []
        for t in ["", "NOP\n", "LDA #1\nJMP F\nF RTS\n", "K = 3\nLDA K\nBNE F\n*=9\nF\n.END\n", "JMP F\n", "L\nL\n", "; %0300d\nL JMP L\nK = 2\n" % 0,
                  *(prog(rng, n) for n in ((10, 20, 40, 80, 160) if c.thorough else (10, 30))),
                  "".join("L%d JMP F%d\n" % (i, i) for i in range(20)) + "".join("F%d = %d\n" % (i, i) for i in range(20))]:
            for n in range(1, 400 if c.thorough else 200):
                if n < 50 or n < 50 + 5 * t.count("\n"):
                    jobs += [J(t, nomem=(c.nomem(), n, more), pre=rng.choice((None, b"old contents " * 30))) for more in (False, True)]
        c.family("refused requests for memory", sample(c, jobs, 1200), ["verdict", "announce", "image", "size", "total", "nsyms", "source"])
    others(c, "C12", IO)
    m2.finish()
    m1.finish()

# ------------------------------------------------------------------ C13
LINES = ["NOP", "ASL", "ROR A", "LDA #$12", "LDA $34", "LDX $56,Y", "STA $78,X", "LDA $1234", "ORA $2345,X", "EOR $3456,Y", "LDA ($12,X)", "STA ($34),Y",
         "JMP $4567", "JMP ($5678)", "JSR $6789", "BNE $10", "BEQ BACK", "JMP BACK", "JMP FWD", "JSR FWD", "JMP (FWD)", "BPL NEAR{}\nNEAR{} = $2080",
         "L{}", "L{}: INX", "L{} = $99", "L{} .EQU $9999", ".DEFINE L{} 5", "", "; LDA #1", "LDA #KON", "STA KON,X", "LDA BIG", "CPX BIG", "LDY #0", "BRK"]
def c13(c):
    c.start()
    m2 = c.session("MCruns", {"MaxRuns": 3} if c.thorough else None)
    rng = c.rng
    asp = FULL + ["where", "kind"]
    jobs = []
    n = 0
    pairs = list(itertools.product(range(len(LINES)), repeat=2))
    rng.shuffle(pairs)
    def L(i):
        nonlocal n
        n += 1
        return LINES[i].replace("{}", str(n))
    head = ["KON = $AB", "BIG = $ABCD", "*=$2000", "BACK:"]
    for b in batches(pairs, 8 if not c.thorough else 4):
        ls = head[:]
        for i, j in b:
            ls += [L(i), L(j)]
        jobs.append(J(lines(*ls, "FWD RTS")))
    for i, j in (pairs if c.thorough else pairs[:300]):
        jobs.append(J(lines(*head, L(i), L(j), L(i), "FWD:")))
    if c.thorough:
        for _ in range(4000):
            jobs.append(J(lines(*head, *[L(rng.randrange(len(LINES))) for _ in range(12)], "FWD:")))
    c.family("sequences of lines", jobs, asp)
    # after an unusual line: long tokens, long literals, many tokens, long comments
    jobs = []
    before = ["Z" * 63, "Z" * 63 + ":", "Z" * 63 + " = $FFFF", "LDA ($12),Y", "LAB LDA ($12 , X ) ; c", "JMP ($FFFF)", "LAB: STA $FFFF,Y", ".DEFINE ZZZZ $FFFF",
              "; " + "x" * 500, " " * 300 + "LDX #$FF", "JMP FWD ;" + "y" * 300, "LAB: JMP (FWD)"]
    for b in before:
        for i in range(len(LINES)):
            if c.thorough or rng.random() < .6:
                jobs.append(J(lines(*head, b, L(i), "LONE", L(i), "FWD")))
    c.family("after unusual lines", jobs, asp)
    # the same text again: other names, other places, stale output, other memory contents
    jobs = []
    texts = [prog(rng, rng.randrange(3, 40)) for _ in range(60 if c.thorough else 14)] + ["LDA !\n", "JMP F\n", "NOP\nSTA #1\n"]
    for t in texts:
        jobs += [J(t), J(t, pre=b"\xff" * 70000), J(t, pre=b"\x00" * 3), J(t, name="other name.s", args="last"), J(t, name="d/e/f", args="long"),
                 J(t, args="none"), J(t, args="none", pre=b"\xea" * 999),
                 J(t, env={"MALLOC_PERTURB_": "165", "GLIBC_TUNABLES": "glibc.malloc.perturb=165"}),
                 J(t, env={"MALLOC_PERTURB_": "90", "GLIBC_TUNABLES": "glibc.malloc.perturb=90"}),
                 J(t, env={"LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "TZ": "Asia/Tokyo", "FILLER": "x" * 5000}),
                 J(t, env={"POSIXLY_CORRECT": "1"}), J(t), J(t)]
        jobs += [J(t, name=nm) for nm in ("p.a65", "P.ASM", "p.S", "p", "~p", "6502", "test.asm", "p.asm.bak")]
        jobs += [J(t, tag=tag) for tag in ("link", "1970", "2037", "readonly", "fd0", "fd2", "fd02")]
        if not isinstance(c, Collector) and c.world():
            jobs += [J(t, env={"LD_PRELOAD": c.world(), "GV_WORLD": w}, pre=rng.choice((None, b"old contents " * 30)))
                     for w in ("0", "1", "yes", "on", "debug", "/", "65C02", "-1")]
    c.family("same text, other circumstances", jobs, asp)
    # a source that arrives in pieces
    jobs = []
    for t in texts + [prog(rng, rng.randrange(3, 200)) for _ in range(20)] + [b + rng.choice(("", "\n")) + l for l, _ in ERR[:12] for b in ("", "NOP\n")] + ["", "\n", "NOP", "L"]:
        for n in (1, 2, 3, 16, 127, 128, 129, 1000, 100000):
            if c.thorough or rng.random() < .4: jobs.append(J(t, tag="fifo%d" % n, args=rng.choice(("o", "last", "none")), pre=rng.choice((None, b"old contents " * 9))))
    jobs += [J("; %s\n" % ("c" * k) + "LDA #1 ; %s\n" % ("d" * (k % 5000)) * 40 + "JMP F\nF RTS\n", tag="fifo%d" % n) for k in (0, 300, 5000, 70000) for n in (100, 4096, 65536)]
    c.family("source in pieces", jobs, asp)
    # parts assembled together and separately
    jobs = []
    for _ in range(400 if c.thorough else 60):
        parts = [Prog(rng, rng.randrange(2, 12), consts=2, orgs=False).ls for _ in range(3)]
        # make the names of the parts disjoint
        ok = []
        for p, k in zip(parts, "abc"):
            ok.append(["*=%d" % (0x400 * (ord(k) - 96))] + p)
        jobs += [J(lines(*p)) for p in ok]
        for perm in rng.sample(list(itertools.permutations(ok)), 2):
            jobs.append(J(lines(*sum(perm, []))))
    c.family("parts", jobs, asp)
    others(c, "C13", asp)
    m = c.model("MCdirectives", FULL, limit=4000)
    m2.finish()
    m.finish()

# ------------------------------------------------------------------ C14
def c14(c):
    c.start()
    mr = c.model("MCdirectives", FULL, consts={"Depth": 5 if c.thorough else 4}, limit=80000 if c.thorough else 9000)
    rng = c.rng
    jobs = []
    D = ["{n} = {v}", "{n}={v}", "{n} .EQU {v}", "{n}\t.equ\t{v}", ".DEFINE {n} {v}", ".define {n}\t{v}", "{n}: = {v}", "{n}: .EQU {v}"]
    O = [".ORG {v}", ".org\t{v}", "*={v}", "* = {v}", "*\t={v}", "*= {v} ; c"]
    for v in BOUND + [rng.randrange(65536) for _ in range(20)]:
        for d in D:
            s = d.format(n="CON", v=num(rng, v))
            jobs.append(J(lines(s, "JMP CON")))
            jobs.append(J(lines("*=$30", "L NOP", s, "JMP L", "JMP CON", "JSR LL", "LL")))
        for o in O:
            if v < 0xff00:
                s = o.format(v=num(rng, v))
                jobs.append(J(lines("K = $77", "L1 INX", s, "L2 INY", "JMP L1", "JMP L2", "JMP K")) if not 0 < v < 8 else J(lines(s, "L2 INY", "JMP L2")))
    c.family("spellings and values", jobs, FULL)
    # constants and origins at every place of a program
    jobs = []
    for _ in range(1500 if c.thorough else 200):
        base = Prog(rng, rng.randrange(3, 15), orgs=False)
        ls = base.ls[:]
        for i in range(rng.randrange(1, 5)):
            d = rng.choice(D).format(n="ZQ_%d" % i, v=num(rng, value(rng)))
            ls.insert(rng.randrange(len(ls) + 1), d)
        jobs.append(J(lines(*ls)))
    c.family("constants anywhere", jobs, FULL)
    # .END
    jobs = []
    after = ["", "!!!", "NOP", "F = 3", "F NOP", "DUP = 1", "LDA NEVER", "*=$100\nNOP", "\"unterminated (", ".END", "X" * 200, ".FOO", "\x80\xfe", "LDA #1 ; x", "*", "; c"]
    for e in (".END", ".end", "  .End", "\t.END ; done", ".END;", ".END\r"):
        for a in after:
            for b in ("NOP\n", "JMP F\n", "DUP = 2\nJMP DUP\n", "BNE F\nF INX\n", ""):
                if c.thorough or rng.random() < .6:
                    jobs.append(J(b + e + "\n" + a + "\n")); jobs.append(J(b + e + "\n" + a + "\n" + a))
        jobs.append(J("NOP\n" + e)); jobs.append(J("NOP\n" + e + "\n" + "INX\n" * 300)); jobs.append(J("LDA #1\nLAB: " + e + "\nNOP\n"))
        jobs.append(J(e + "\nNOP\n")); jobs.append(J("LDA #1\n; " + e + "\nNOP\n")); jobs.append(J("LAB " + e + "\n"))
    c.family(".END", jobs, FULL)
    jobs = []
    for _ in range(1500 if c.thorough else 200):
        p = Prog(rng, rng.randrange(3, 30))
        ls = p.ls[:]
        ls.insert(rng.randrange(len(ls) + 1), rng.choice((".END", ".end ; x", "\t.END")))
        jobs.append(J(lines(*ls)))
        jobs.append(J(prog(rng, rng.randrange(3, 30))))
    c.family("programs with and without .END", jobs, FULL)
    # directives that are none
    jobs = []
    for d in ("ORG", "EQU", "DEFINE", "END"):
        for s in ("." + d[:-1], "." + d + "S", "." + d + "1", "." + d + "_", ".." + d, ". " + d, d, "." + d + ".", "." + d + ":", "." + d + "," , "." + d + "(", "." + d + d):
            for f in ("{} 3", "{} LAB 3", "LAB {} 3", "{}", "LAB {}"):
                jobs.append(J("NOP\n" + f.format(s) + "\nINX\n")); 
    c.family("almost directives", jobs, FULL)
    # whatever may stand where a directive wants a name or a value
    jobs = []
    T = ["A", "X", "Y", "a", "LDA", "nop", "$12", "12", "%1", "LAB", "KN", "*", "#", "(", ")", ",", "=", ".ORG", ".END", ".EQU", ".DEFINE", "#1", "(3)", "3,X", "'A'", "-1", "K+1", "$", ":", "_", "0", ""]
    for a, b in itertools.product(T, T):
        for f in (".DEFINE {} {}", "{} = {}", "{} .EQU {}", "{} {} 3", "{} {}"):
            if "A" in (a, b) and (a == b or {a, b} & {"$12", "12", "LAB", "=", "KN", ""}) or c.thorough or rng.random() < .2: jobs.append(J("KN = 7\n" + f.format(a, b) + "\nINX\n"))
    for a in T:
        for f in (".ORG {}", "*={}", "* = {}", ".END {}", ".END{}", "*{}= 3", ".ORG{} 3", ".ORG 3 {}", "*=3 {}", ".DEFINE K 3 {}", "K = 3 {}", "K .EQU 3 {}", "LAB .ORG {}", "LAB: *={}", "{} .END", "{} *=3",
                  "K .DEFINE {} 3", ".DEFINE {} = 3", ".DEFINE {}, 3", ".DEFINE {}: 3", ".EQU {} 3", "= {}"):
            jobs.append(J("KN = 7\n" + f.format(a) + "\nINX\n"))
    c.family("operands of directives", jobs, FULL)
    # directives of other assemblers
    jobs = []
    for w in ("SET EQ EQUATE VAR CONST LET DEF DEFINES DEFN ORGIN ORIGIN BASE START ENDS ENDM ENDIF FIN STOP BYTE WORD DB DW DS DC DFB DFW DA DCB BYT DBYT TEXT ASC ASCII ASCIIZ STR STRING FILL RES SPACE "
              "BLOCK ALIGN PAD INCLUDE INCBIN INCLUDEBIN BIN MACRO MAC IF ELSE IFDEF PROC SEGMENT SEG CODE DATA BSS ZEROPAGE CPU PROCESSOR OPT LIST NOLIST TITLE PAGE LOCAL GLOBAL GLOBL EXPORT IMPORT SECTION REPT LOC AORG RORG O E D").split():
        for f in ("{} 3", "{} LAB 3", "LAB {} 3", "{}", "LAB {}", "LAB: {} 3", "{}=3"):
            for d in ("." + w, "." + w.lower(), w, "#" + w.lower(), "!" + w.lower()):
                if c.thorough or rng.random() < (.5 if d == "." + w else .1): jobs.append(J("NOP\n" + f.format(d) + "\nINX\n"))
    c.family("directives of other assemblers", jobs, FULL)
    others(c, "C14", FULL)
    mr.finish()

def longname(n, ch):
    return "/".join(["d" * 100] * (n // 101) + [ch * (n % 101 or 1)])

def stretched(rng, sizes, k=1):
    """programs in which something that says nothing is very long"""
    lab = "L" + "x" * 70
    kinds = [(" LDA #1", 0), ("\tLDA #1", 0), ("LDA #1 ", 6), ("LDA #1\t", 6), ("LDA  #1", 4), ("LDA $12 ,X", 7), ("LDA $12,\tX", 8), ("; c", 0), ("; c", 2), ("LDA #1;x;", 8),
             ("LDA #1 ;\xff.", 8), ("F JMP F ; end", 9), (" ", 0), ("\t", 0), ("LDA #007", 5), ("STA $0012,X", 5), ("STA %00012", 5), ("STA %0010,X", 5), ("LDX 0012", 4), ("K = $0FFF", 5),
             ("*= $0200", 4), (".ORG\t0512", 5), (".DEFINE Q  5", 9), ("Q .EQU 07", 7), (lab, 67), (lab + " NOP", 68), ("JMP " + lab, 72), ("LDA #" + lab + "!", 73),
             ("JMP G ", 5), ("BNE G; zz", 6), ("JMP (G) ", 7), ("  NOP !", 1), ("LDA #1 ;\r", 7), ("LDA 00256,Y\r", 4), ("LDY #0256", 5), (".END ", 4), (".END ;", 5)]
    jobs = []
    for n in sizes:
        for l, at in rng.sample(kinds, len(kinds) if k == 1 else len(kinds) // k):
            before = rng.choice(("", "NOP\nH INX\n", "*=$10\nJMP G\n", "\n"))
            after = rng.choice(("\nG RTS\n", "\nG RTS", "\nLDA #2\nG .EQU $1234\n"))
            jobs.append(J(before + l + (after if rng.random() < .8 else ""), stretch=(len(before) + at, n)))
    return jobs

# ------------------------------------------------------------------ C15
def c15(c):
    rng = c.rng
    c.start(exe=build_san(), timeout=60 if c.thorough else 20)
    mh = c.histories("MCReader", "MCReader.tla")
    T = ["term"]
    big = c.thorough
    def scale(q, t): return t if big else q
    jobs = []
    for _ in range(scale(1200, 20000)):
        k = rng.randrange(6)
        n = rng.choice((1, 5, 30, 200, 1000, 5000))
        if k == 0: t = bytes(rng.randrange(256) for _ in range(n))
        elif k == 1: t = bytes(rng.choice(b"LDA#$(),XY:;=*.% \t\n\nAFfoo019_") for _ in range(n))
        elif k == 2: t = " ".join(rng.choice(TOKENS + ["\n", "\n"]) for _ in range(n)).encode()
        elif k == 3:
            t = bytearray(prog(rng, rng.randrange(1, 40)).encode("latin1"))
            for _ in range(rng.randrange(1, 12)):
                i = rng.randrange(len(t) + 1)
                z = rng.randrange(3)
                if z == 0: t[i:i] = bytes([rng.randrange(256)]) * rng.choice((1, 1, 2, 64, 130))
                elif z == 1: t[i:i + rng.choice((1, 1, 3, 20))] = b""
                else: t[i:i + 1] = bytes([rng.choice((0, 255, 10, 13, 9, 32, 58, 59, 36, 42, 46, 127))])
            t = bytes(t)
        elif k == 4: t = bytes(rng.choice(b"\0\xff\r\n\t ;:.$%A") for _ in range(n))
        else: t = prog(rng, rng.randrange(1, 80)).encode("latin1")[:rng.randrange(3000)]
        jobs.append(J(t))
    c.family("random bytes and mutated programs", jobs, T)
    # each form cut off at every byte, doubled, followed by anything
    jobs = []
    for l, b in ERR + PENDERR + [(spell(rng, f), []) for f in forms()]:
        full = "\n".join(b + [l])
        cuts = range(len(full) + 1) if big else sorted(rng.sample(range(len(full) + 1), min(6, len(full) + 1)))
        for i in cuts:
            jobs.append(J(full[:i]))
            jobs.append(J(full[:i] + rng.choice(("\0", "\xff", "\r", ":", ";", "\t", "(", ".", "$", "%")) + full[i:] + "\n"))
    c.family("every line cut off", jobs, T)
    # lengths
    jobs = []
    for ch in "A1$%.;( \t,#:*=_\x80)X":
        for n in (1, 2, 7, 8, 9, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 20000):
            if big or rng.random() < .5:
                jobs.append(J(ch * n)); jobs.append(J("LDA " + ch * n + "\nNOP\n"))
                jobs.append(J("L " + ch * n + " ;\n")); jobs.append(J("JMP F " + ch * n + "\nF\n") if ch in "; \t" else J("JMP F" + ch * n + "\nF\n"))
                jobs.append(J((ch + " ") * n)); jobs.append(J("." + ch * n)); jobs.append(J("$" + ch * n)); jobs.append(J("BNE " + ch * n + "\n" + "\t" * n + "!\n"))
    c.family("lengths", jobs, T)
    c.family("histories of the line reader", reader_programs(rng, sample(c, mh.finish(), 300, 3000), True), T)
    # errors at every kind of place, however far to the right
    jobs = []
    for n in (7, 8, 31, 32, 33, 63, 64, 79, 80, 120, 127, 128, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 8192, 16384, 65535, 65536, 70000):
        for k, (l, b) in enumerate(rng.sample(ERR, len(ERR) if big else 5) + rng.sample(PENDERR, len(PENDERR) if big else 3)):
            pad = rng.choice((" ", " ", "\t", " \t")) * n
            body = "FAR = $7000\n" + pad + l if k % 3 else l.replace(" ", " " + pad, 1) if " " in l else pad + l
            jobs.append(J("\n".join(b + [body + rng.choice(("", "\n", " ;" + "c" * n, pad))])))
    c.family("errors far to the right", jobs, T)
    # numbers of things
    jobs = []
    for n in (0, 1, 6, 7, 8, 9, 15, 16, 17, 18, 19, 31, 32, 33, 63, 64, 65, 100, 300) + ((1000, 3000, 10000) if big else (1500,)):
        jobs.append(J("".join("L%d\n" % i for i in range(n)) + "L0 = 3\n"))
        jobs.append(J("".join("L%d = %d\n" % (i, i % 65536) for i in range(n)) + "LDA #L%d" % n))
        jobs.append(J("".join("JMP L%d\n" % i for i in range(n)) + "".join("L%d = 3\n" % i for i in range(n))))
        jobs.append(J("".join("JMP L%d\n" % i for i in range(n))))
        jobs.append(J("".join("JMP L%d\n" % i for i in range(n)) + "!"))
        jobs.append(J("JMP F\n" * n + "F"))
        jobs.append(J("\n" * n + "LDA")); jobs.append(J("NOP\n" * n))
        jobs.append(J("".join("%s = 3\n" % x for x in collide(min(10, max(1, n.bit_length())))[:n])))
    jobs.append(J("".join("L%d\n" % i for i in range(66000 if big else 33000))))
    for a in (0, 0x7fff, 0x8000, 0xffff):
        jobs.append(J("*=%d\nNOP\nJMP F\nF JMP F\n" % a))
    c.family("numbers of lines, labels, references", jobs, T)
    if big: c.scale("very many labels", "L%011X", 45200000, 600)
    others(c, "C15", T, 900)
    # the plain build comes to an end as well, with the same text
    c.runner.close()
    c.start(exe=build(), timeout=60 if c.thorough else 20)
    jobs = [J(bytes(rng.choice(b"LDA#$(),XY:;=*.% \t\n\nAFfoo019_") for _ in range(rng.choice((30, 300, 3000))))) for _ in range(300)]
    jobs += [J(prog(rng, rng.randrange(200, 600), space=0xa000)) for _ in range(scale(10, 100))]
    c.family("plain build", jobs, T + ["verdict", "announce"])
    c.family("very long lines", stretched(rng, (100000, 9000000) + ((40000000, 300000000) if big else ())), T + ["verdict", "announce", "kind"])
    m = c.model("MCerrors", ["term"], limit=3000)
    m.finish()

# ------------------------------------------------------------------ C16
SUM = ["term", "verdict", "announce", "total", "nsyms"]
def c16(c):
    c.start()
    mr = c.model("MCrefs", SUM, consts={"Depth": 5 if c.thorough else 4}, limit=80000 if c.thorough else 9000)
    rng = c.rng
    jobs = []
    for n in list(range(0, 20)) + [127, 128, 255, 256, 257, 400] + ([4095, 4096, 9999, 10000, 21845] if c.thorough else [1366]):
        for i, d in (("NOP", ""), ("LDA #1", ""), ("STA $1234", ""), ("JMP F", "F = 9\n"), ("JMP F", "F RTS\n")):
            if n < 500 or i != "JMP F": jobs.append(J((i + "\n") * n + d))
        if n <= 60: jobs.append(J("BNE F\n" * n + "F NOP\n")); jobs.append(J("F NOP\n" + "BNE F\n" * n))
    jobs.append(J("STA $1234\n" * 10923))         # more than 15 bits
    jobs.append(J("STA $1234\n" * 21845 + "NOP"))  # all that there is
    jobs.append(J("*=$8000\n" + "LDA #1\n" * 16384 + "*=0\n" + "BRK\n" * 600))
    jobs += [J("\n".join(["*=%d\nJMP F\nLDA #1" % (k * 257) for k in range(n)]) + "\nF = 1") for n in (30, 255)]
    # every running total while references wait, labels exist, nothing waits
    for unit, size in (("NOP", 1), ("LDA #1", 2), ("STA $1234", 3), ("JMP F", 3), ("LDX F,Y", 3), ("BNE F", 2)):
        n = (66000 if c.thorough else 1100 if unit == "NOP" else 400) // size
        if unit == "BNE F": n = 60
        if unit in ("JMP F", "LDX F,Y"): n = min(n, 400 if c.thorough else 100)      # each one a reference
        for off in ("", "INX\n", "LDY #2\n") if c.thorough or size > 1 else ("",):
            for head in ("JMP F\n", "JMP F\nBNE G\nG INY\n", "BEQ F\nK = 7\n"):
                if head[0] == "B": tail, m_ = "F RTS", min(n, 120 // size)
                else: tail, m_ = rng.choice(("F = $1000\n", "F RTS\n")), n
                if unit == "BNE F" and "=" in tail: tail = "F RTS\n"
                jobs.append(J(off + head + (unit + "\n") * m_ + tail))
    c.family("byte totals", jobs, SUM)
    c.family("every address", everywhere(rng, c.thorough), SUM)
    jobs = []
    for n in list(range(0, 45)) + [79, 80, 99, 100, 163, 164, 255, 256, 257, 331] + ([1000, 2000, 3000] if c.thorough else [700, 1500]):
        k = rng.randrange(5)
        jobs.append(J("".join(rng.choice(("N%d = 5\n", "N%d\n", "N%d: NOP\n", ".DEFINE N%d 7\n", "N%d .EQU 3\n")) % i for i in range(n)) +
                      "".join("JMP N%d\n" % rng.randrange(n) for _ in range(k if n else 0))))
    for k in (1, 3, 5): jobs.append(J("".join("%s = 1\n" % x for x in collide(k))))
    for n in (33000, 66000): jobs.append(J("".join("M%d = 5\n" % i for i in range(n))))
    c.family("label totals", jobs, SUM)
    jobs = []
    for a, b in ((0, 0x1000), (0x1000, 0), (0x8000, 0xff00), (5, 5), (0xfff0, 0)):
        jobs.append(J(lines("*=%d" % a, "LDA #1", "*=%d" % b, "JMP F", "F = 1", "BNE G", "G")))
        jobs.append(J(lines("*=%d" % a, "L = 3", "*=%d" % b, "; x", "")))
    jobs += [J(prog(rng, rng.randrange(1, 90), consts=10)) for _ in range(3000 if c.thorough else 350)]
    c.family("whole programs", jobs, SUM)
    others(c, "C16", SUM)
    mr.finish()

# ------------------------------------------------------------------ C17
def c17(c):
    c.start()
    ms = [c.session("MCargs", {"MaxWords": 4} if c.thorough else None), c.session("MCodd", {"MaxWords": 4} if c.thorough else None)]
    if c.thorough: ms.append(c.session("MCruns", {"MaxRuns": 3}))
    ms.append(c.together("MCtogether", {"MaxSwitches": 4} if c.thorough else None, None if c.thorough else 1500))
    rng = c.rng
    jobs = []
    texts = ["", "NOP\n", "*=3\nLDA #1\nJMP F\nF RTS\n", "LDA ?\n", "BNE F\n", "NOP\n.END\n?\n"] + [prog(rng, n) for n in (3, 10, 40)]
    for t in texts:
        for args in ("o", "last", "joined", "long", "longeq", "none", "twice", "dash"):
            for name in ("p.asm", "p", "a b.asm", "dir/p.asm", ".p", "o", "P.ASM", "p.asm.txt", "n" * 200, "./p.asm", "x=y", "a.out.asm"):
                for pre in (None, b"old contents " * 30):
                    if c.thorough or rng.random() < .4:
                        jobs.append(J(t, args=args, name=name, pre=pre))
    for n in (4096, 65535, 65536, 65537, 200000, (1 << 20) + 1, 5000000):
        for args in ("o", "last", "joined", "long", "longeq", "none"):
            jobs.append(J(rng.choice(texts), args=args, pre=rng.choice((b"\xff", b"\0", b"old\n")) * n))
    c.family("ways of giving the output", jobs, IO + ["image", "size"])
    # names of every length and kind, for both files
    jobs = []
    deep = lambda n: longname(n, "o")
    long_ = ["o" * n for n in (1, 2, 3, 30, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255)]
    long_ += [deep(n) for n in (255, 256, 257, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 3900)]
    odd = ["-x", "-", "--", "-o", "--output", "=", "=x", "x=", "a b", " a", "a ", "\t", "a\nb", "%s", "%d%n", "o.asm", "p", "p.asm.bin", "d/../o", ".//o",
           "./.o", "d//o", "o.", "..o", "\u00e9", "'", '"', "\\", "$HOME", "~", "*", "?", "#o", ";", "&", "|", "a.out", "A.OUT", "out", "b.out", "0", "1", "stdout"]
    for nm in long_ + odd:
        for args in ("o", "last", "joined", "long", "longeq", "dash"):
            if c.thorough or rng.random() < .5:
                jobs.append(J(rng.choice(texts), args=args, oname=nm, pre=rng.choice((None, b"old contents " * 30))))
        if nm not in ("a.out", "A.OUT", "d/../o", ".//o") and nm[0] != "-":
            for args in ("o", "none", "dash"):
                jobs.append(J(rng.choice(texts), args=args, name=nm))
    c.family("names of files", jobs, IO + ["image", "size"])
    for m in ms: m.finish()

PROPS = {
    "C01": {"run": c01, "needs": ("ok", "illegal addressing mode")},
    "C02": {"run": c02, "needs": ("ok", "illegal addressing mode")},
    "C03": {"run": c03, "needs": ("ok",)},
    "C04": {"run": c04, "needs": ("ok", "no redefinition of labels")},
    "C05": {"run": c05, "needs": ("ok", "label definition was not found", "illegal forward reference")},
    "C06": {"run": c06, "needs": ("ok", "branch offset too far away")},
    "C07": {"run": c07, "needs": ("ok", "value of literal exceeds 2 bytes", "illegal character")},
    "C08": {"run": c08, "needs": ("ok", "illegal syntax", "illegal base")},
    "C09": {"run": c09, "needs": ("ok",)},
    "C10": {"run": c10, "needs": ("ok", "label exceeds 63 characters", "illegal syntax")},
    "C11": {"run": c11, "needs": ("illegal character", "value of literal exceeds 2 bytes", "label exceeds 63 characters",
                                  "illegal assembler directive", "illegal syntax", "illegal base", "no redefinition of labels",
                                  "illegal forward reference", "illegal addressing mode", "branch offset too far away",
                                  "label definition was not found")},
    "C12": {"run": c12, "needs": ("ok", "could not be opened", "assembled binary file could not be created")},
    "C13": {"run": c13, "needs": ("ok",)},
    "C14": {"run": c14, "needs": ("ok", "label definition was not found")},
    "C15": {"run": c15, "needs": ("ok", "diag")},
    "C16": {"run": c16, "needs": ("ok",)},
    "C17": {"run": c17, "needs": ("ok", "diag", "command: ok", "command: wrong", "command: info", "command: rejected")},
}
