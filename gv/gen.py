"""Source texts.  Nothing here knows what a text should assemble to: the
specification alone decides that."""
import itertools, random
from .runner import Job

MNEM = """ADC AND ASL BCC BCS BEQ BIT BMI BNE BPL BRK BVC BVS CLC CLD CLI CLV CMP CPX CPY DEC DEX DEY
EOR INC INX INY JMP JSR LDA LDX LDY LSR NOP ORA PHA PHP PLA PLP ROL ROR RTI RTS SBC SEC SED SEI STA
STX STY TAX TAY TSX TXA TXS TYA""".split()
BRANCH = "BCC BCS BEQ BMI BNE BPL BVC BVS".split()
SHIFT = "ASL LSR ROL ROR".split()
SHAPES = {"none": "", "acc": "A", "imm": "#{}", "plain": "{}", "x": "{},X", "y": "{},Y",
          "ind": "({})", "indx": "({},X)", "indy": "({}),Y"}
OPSHAPES = [s for s in SHAPES if "{}" in SHAPES[s]]

def ins(m, shape, op=""):
    return (m + " " + SHAPES[shape].format(op)).rstrip()

def J(s, **kw):
    return Job(s.encode("latin1") if isinstance(s, str) else s, **kw)

def lines(*ls):
    return "".join(l + "\n" for l in ls)

def num(rng, v):
    """v in a random base and spelling"""
    k = rng.randrange(8)
    if k == 0: return "$%x" % v
    if k == 1: return "$%X" % v
    if k == 2: return "%d" % v
    if k == 3: return "%" + bin(v)[2:]
    if k == 4: return "$%04X" % v
    if k == 5: return "%" + bin(v)[2:].zfill(16)
    if k == 6: return "%05d" % v
    return "$" + "".join(rng.choice((c.lower(), c.upper())) for c in "%0*x" % (rng.randrange(1, 8), v))

BOUND = [0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfd, 0xfe, 0xff, 0x100, 0x101, 0x102, 0x17f, 0x180, 0x1fe,
         0x1ff, 0x200, 0x7ff, 0x800, 0xfff, 0x1000, 0x1234, 0x7f00, 0x7fff, 0x8000, 0x8001, 0xff00,
         0xff01, 0xfffe, 0xffff]

def value(rng):
    k = rng.randrange(4)
    if k == 0: return rng.choice(BOUND)
    if k == 1: return rng.randrange(256)
    if k == 2: return rng.randrange(65536)
    return 1 << rng.randrange(16)

ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"
RESERVED = set(MNEM) | {"A", "X", "Y"}
def name(rng, lo=1, hi=12):
    while True:
        n = rng.choice(ALNUM[:52]) + "".join(rng.choice(ALNUM) for _ in range(rng.randrange(lo, hi + 1) - 1))
        if n.upper() not in RESERVED:
            return n

def recase(rng, s):
    return "".join(rng.choice((c.lower(), c.upper())) for c in s)

# mnemonic x shape that exist for some operand (used only to write programs
# that are likely to be accepted)
LIKELY = {
 "imm": "ADC AND CMP CPX CPY EOR LDA LDX LDY ORA SBC",
 "plain": "ADC AND ASL BIT CMP CPX CPY DEC EOR INC LDA LDX LDY LSR ORA ROL ROR SBC STA STX STY",
 "x": "ADC AND ASL CMP DEC EOR INC LDA LDY LSR ORA ROL ROR SBC STA",
 "indx": "ADC AND CMP EOR LDA ORA SBC STA", "indy": "ADC AND CMP EOR LDA ORA SBC STA",
 "none": "ASL BRK CLC CLD CLI CLV DEX DEY INX INY LSR NOP PHA PHP PLA PLP ROL ROR RTI RTS SEC SED SEI "
         "TAX TAY TSX TXA TXS TYA", "acc": "ASL LSR ROL ROR",
 "yabs": "ADC AND CMP EOR LDA ORA SBC STA LDX", "yzp": "LDX STX"}
LIKELY = {k: v.split() for k, v in LIKELY.items()}

class Prog:
    """A random program that is accepted unless something else is put in."""
    def __init__(self, rng, n, consts=3, orgs=True, refs=True, style=True, space=None):
        if space is None: space = rng.choice((0x6000, 0x6000, 0xf000, 0xfc00))
        self.rng, self.ls, self.style = rng, [], style
        self.names = set()
        self.small, self.big, self.addrs = [], [], []
        self.loc = 0
        self.space = space
        self.pending = {}            # name -> location of its first reference (branches)
        self.jpending = set()
        for _ in range(rng.randrange(consts + 1)):
            self.const()
        k = 0
        while k < n:
            r = rng.random()
            if r < .05: self.const()
            elif r < .10 and orgs and not self.pending: self.org()
            elif r < .16: self.ls.append(rng.choice(["", ";", "  ; x", "\t", "; LDA #1 : ( ,", " ;;"]))
            elif r < .24: self.label()
            else: self.instr(refs); k += 1
            for m, at in list(self.pending.items()):
                if self.loc - at > 90:
                    self.label(m)
        for m in sorted(self.pending) + sorted(self.jpending):
            if self.rng.random() < .7 or m in self.pending:
                self.label(m)
            else:
                self.const(m)

    def fresh(self):
        while True:
            n = name(self.rng, 1, self.rng.choice((3, 8, 20)))
            if n.upper() not in self.names:
                self.names.add(n.upper())
                return n

    def sp(self):
        return self.rng.choice((" ", " ", "\t", "  ")) if self.style else " "

    def emit(self, s):
        r = self.rng
        if self.style:
            s = r.choice(("", "", " ", "\t")) + s + r.choice(("", "", "", " ", "\t", " ; c", ";c"))
        self.ls.append(s)

    def use(self, n):
        return recase(self.rng, n) if self.style and self.rng.random() < .3 else n

    def const(self, n=None):
        r = self.rng
        if n is None: n = self.fresh()
        else: self.pending.pop(n, None); self.jpending.discard(n)
        v = value(r)
        (self.small if v < 256 else self.big).append(n)
        l = num(r, v)
        k = r.randrange(3)
        s = (n + self.sp() + "=" + self.sp() + l, n + " .EQU " + l, ".DEFINE " + n + " " + l)[k]
        self.emit(recase(r, s) if self.style and r.random() < .1 else s)

    def org(self):
        r = self.rng
        to = self.loc + r.choice((0, 1, 2, 16, 100, 255, 256, 1000, r.randrange(3000), r.randrange(0x8000), 0x8000 - self.loc))
        if self.loc <= to <= self.space: self.loc = to
        l = num(r, self.loc)
        self.emit(r.choice((".ORG " + l, "*=" + l, "* = " + l, ".org " + l)))

    def label(self, n=None):
        if n is None:
            c = sorted(set(self.pending) | self.jpending)
            n = self.rng.choice(c) if c and self.rng.random() < .6 else self.fresh()
        self.pending.pop(n, None); self.jpending.discard(n)
        self.addrs.append((n, self.loc))
        k = self.rng.randrange(4)
        if k < 2: self.emit(n + (":" if k else ""))
        else: self.instr(True, n + (": " if k == 3 else " "))

    def instr(self, refs, lab=""):
        r = self.rng
        k = r.randrange(10)
        if k < 2: s, size = r.choice(LIKELY["none"]), 1
        elif k == 2: s, size = r.choice(LIKELY["acc"]) + " A", 1
        elif k == 3:
            s = r.choice(BRANCH); size = 2
            near = [n for n, a in self.addrs if -120 < a - self.loc < 120]
            if near and r.random() < .6: s += " " + self.use(r.choice(near))
            elif refs:
                n = r.choice(sorted(self.pending)) if self.pending and r.random() < .4 else self.fresh()
                self.pending.setdefault(n, self.loc); s += " " + self.use(n)
            else: s += " " + num(r, r.randrange(256))
        elif k == 4:
            s = r.choice(("JMP", "JMP", "JSR")); size = 3
            c = r.randrange(4)
            known = [n for n, _ in self.addrs] + self.small + self.big
            if c == 0 or (c < 3 and not known): op = num(r, value(r))
            elif c < 3 or not refs: op = self.use(r.choice(known)) if known else num(r, value(r))
            else:
                op = self.fresh() if not self.jpending or r.random() < .6 else r.choice(sorted(self.jpending))
                self.jpending.add(op); op = self.use(op)
            s += " (%s)" % op if s == "JMP" and r.random() < .4 else " " + op
        else:
            shape = r.choice(("imm", "plain", "plain", "x", "indx", "indy", "y"))
            wide = r.random() < .5 and shape in ("plain", "x", "y")
            m = r.choice(LIKELY["yabs" if wide else "yzp"]) if shape == "y" else r.choice(LIKELY[shape])
            if shape == "plain" and m == "" : m = "LDA"
            pool = [n for n in (self.big if wide else self.small)]
            pool += [n for n, a in self.addrs if (a > 255) == wide]
            if pool and r.random() < .5: op = self.use(r.choice(pool))
            else: op = num(r, r.randrange(256, 65536) if wide else r.randrange(256))
            if wide and shape == "x" and m in ("STY",): shape = "plain"
            s, size = ins(m, shape, op), 3 if wide else 2
        self.emit(lab + (recase(r, s) if self.style and r.random() < .2 else s))
        self.loc += size

    def text(self, eol="\n", final=True):
        t = eol.join(self.ls)
        return t + eol if final else t

def prog(rng, n, **kw):
    return Prog(rng, n, **kw).text()
