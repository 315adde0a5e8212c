"""Programs of many characters: each is written by an author with habits of
its own - how long and how alike its names are, how it spaces and comments,
where it puts code, how it refers.  Nothing here knows what a text assembles to."""
import random
from .gen import *

OPEN = ["NOP", "LDA", "K", "3", ";"]
BADLINES = ["LDA !", "L1 = $1G", "K9 = 65536", "LDA #$100", "LDA ($100),Y", "STA #1", "NOP 3", "INC A", "LDX 3,X", ".FOO", "X = 3", "LDA 3,", "LDA (3",
            "LDA NEVER", "STA NEVER,X", "JSR (NEVER)", "JMP NEVER,X", "BNE 3,X", "BEQ $100", "* 3", ".ORG LAB", "Q 3", "LDA 1 2 3 4 5 6 7 8", "NOP:", "L" + "g" * 63,
            "JMP NEVER", "BNE NEVER", "JMP (NEVER)", "LDA", "ASL #1", ".DEFINE 3", "= 3", "LDA #", "LDA %2", "LDA A:"]
AFTEREND = ["", "!!!", "NOP", "F NOP", "LDA NEVER", "*=$100", ".END", "X" * 200, "\x80\xfe", "JMP", "K = 99999", "; c"]

class Wild:
    def __init__(self, rng, size=None):
        r = self.r = rng
        self.n = size or r.choice((3, 8, 15, 30, 30, 60, 100))
        # habits
        self.nlen = r.choice(((1, 3), (1, 8), (2, 20), (6, 6), (30, 40), (55, 63), (63, 63), (1, 63)))
        self.alike = r.choice(("any", "any", "any", "prefix", "suffix", "number", "collide", "onechar", "under"))
        self.case = r.choice((0, 0, .1, .5, 1))
        self.pblank = r.choice((0, 0, .1, .5, .9))
        self.blanks = r.choice(((" ",), (" ",), ("\t",), (" ", "\t"), (" ", "  ", "\t", "\t\t"), (" " * 7, "\t "), (" " * 30,)))
        self.lead = r.choice(("", "", "mixed", " ", "\t", "  ", "        "))
        self.trail = r.choice((0, 0, .2, .8))
        self.pcomment = r.choice((0, 0, .1, .4, 1))
        self.clen = r.choice((0, 3, 20, 100, 300))
        self.pempty = r.choice((0, 0, .1, .4, .8))
        self.eol = r.choice(("\n", "\n", "\n", "\r\n"))
        self.final = r.random() < .8
        self.plabel = r.choice((.05, .15, .15, .4, .8))
        self.colon = r.choice((0, .5, 1))
        self.pconst = r.choice((.02, .1, .3))
        self.pieces = r.choice((1, 1, 1, 2, 3, 6, 12))
        self.basehabit = r.choice(("mixed", "mixed", "hex", "dec", "bin", "zeros"))
        self.pref = r.choice((.1, .3, .3, .7, .95))     # label operands
        self.pfwd = r.choice((0, .1, .3, .3, .8, 1))    # of these: to labels that come later
        self.reuse = r.choice((.1, .5, .9))             # of these: one that is waited for already
        self.pools = r.choice((None, None, ["JMP"], ["none"], ["JMP", "BR"], ["imm", "plain"], ["BR", "none"], ["x", "y", "indx", "indy"]))
        self.values = r.choice(("mixed", "mixed", "bound", "small", "page", "high"))
        self.names, self.lines = set(), []
        self.consts, self.addrs = [], []       # (name, value)
        self.pend, self.bpend = [], {}         # jumps' and branches' labels to come
        self.seq = 0
        self.stem = "".join(r.choice(ALNUM[:52]) for _ in range(1)) + "".join(r.choice(ALNUM) for _ in range(60))
        self.write()

    # -- names and numbers
    def fresh(self):
        r = self.r
        for _ in range(200):
            self.seq += 1
            lo, hi = self.nlen
            n = r.randrange(lo, hi + 1)
            if self.alike == "any": w = name(r, n, n)
            elif self.alike == "prefix": w = self.stem[:1 + self.seq % 60]
            elif self.alike == "suffix": w = ("%s%s" % (r.choice(ALNUM[:52]), self.stem[-n + 1:] if n > 1 else ""))
            elif self.alike == "number": w = "L%0*d" % (max(1, n - 1) if n < 10 else 8, self.seq)
            elif self.alike == "collide":
                k = self.seq
                w = "".join(("AZ", "B9")[k >> i & 1] for i in range(max(5, (n // 2) & 15)))
            elif self.alike == "onechar":
                i = r.randrange(max(2, n))
                w = self.stem[:max(2, n)]
                w = w[:i] + r.choice(ALNUM[:52]) + w[i + 1:]
            else: w = r.choice(ALNUM[:52]) + "_" * r.randrange(n) + r.choice(ALNUM)
            w = w[:63]
            if w.upper() not in RESERVED and w.upper() not in self.names and w[0].isalpha():
                self.names.add(w.upper())
                return w
        self.alike, self.nlen = "any", (8, 12)
        return self.fresh()

    def use(self, w):
        return recase(self.r, w) if self.r.random() < self.case else w

    def val(self):
        r = self.r
        if self.values == "mixed": return value(r)
        if self.values == "bound": return r.choice(BOUND)
        if self.values == "small": return r.randrange(300)
        if self.values == "page": return min(65535, 256 * r.randrange(256) + r.choice((0, 0, 1, 255)))
        return r.randrange(0xff00, 0x10000)

    def num(self, v):
        r = self.r
        h = self.basehabit
        if h == "hex": return "$%x" % v
        if h == "dec": return "%d" % v
        if h == "bin": return "%" + bin(v)[2:]
        if h == "zeros":
            z = "0" * r.choice((0, 1, 2, 5, 12, 40))
            return r.choice(("$" + z + "%X" % v, z + "%d" % v, "%" + z + bin(v)[2:]))
        return num(r, v)

    # -- lines are tokens
    def put(self, *toks, size=0):
        r = self.r
        while r.random() < self.pempty:
            self.lines.append(r.choice(("", "", ";", "; " + "x" * r.randrange(self.clen + 1), r.choice(self.blanks), " ;", "\t; NOP", ";;;")))
        s = ""
        for t in toks:
            need = s and (s[-1].isalnum() or s[-1] == "_") and (t[0].isalnum() or t[0] in "_.$%*:#=")
            if t == ":": need = False
            glued = t == ":" or (s.endswith(":") and not need and r.random() < .2)
            if need or (s and not glued and (s[-1] == ":" or r.random() < self.pblank)):
                s += r.choice(self.blanks)
            s += t
        if self.lead == "mixed": s = r.choice(("", " ", "\t", "\t\t", "   ", " \t")) + s
        elif not toks or not toks[0][0].isalpha() or r.random() < .7: s = self.lead + s
        if r.random() < self.pcomment:
            s += r.choice(("", " ", "\t")) + ";" + "".join(r.choice("abc NOP:;,()#=*$%.\t!\"") for _ in range(r.randrange(self.clen + 1)))
        elif r.random() < self.trail: s += r.choice(self.blanks)
        self.lines.append(s)
        self.loc += size

    def case_(self, w):
        return recase(self.r, w) if self.r.random() < self.case else w

    def const(self, n=None):
        n = n or self.fresh()
        v = self.val()
        self.bpend.pop(n, None)
        if n in self.pend: self.pend.remove(n)
        self.consts.append((n, v))
        k = self.r.randrange(3)
        if k == 0: self.put(self.use(n), *([":"] if self.r.random() < .1 else []), " = " if self.pblank == 0 and self.r.random() < .5 else "=", self.num(v))
        elif k == 1: self.put(self.use(n), self.case_(".EQU"), " " + self.num(v))
        else: self.put(self.case_(".DEFINE"), " " + self.use(n), self.num(v))

    def label(self, n=None):
        """tokens of a label in front of an instruction, or a line of its own"""
        n = n or self.fresh()
        self.addrs.append((n, self.loc))
        self.bpend.pop(n, None)
        if n in self.pend: self.pend.remove(n)
        t = [self.use(n)] + ([":"] if self.r.random() < self.colon else [])
        if self.r.random() < .5:
            self.put(*t)
            return []
        return t

    def instr(self, lab):
        r = self.r
        kind = r.choice(self.pools or ("none", "acc", "BR", "BR", "JMP", "JMP", "imm", "plain", "plain", "x", "y", "indx", "indy"))
        ref = r.random() < self.pref
        fwd = ref and r.random() < self.pfwd
        if kind == "BR":
            m = self.case_(r.choice(BRANCH))
            if fwd:
                n = r.choice(list(self.bpend)) if self.bpend and r.random() < self.reuse else self.fresh()
                self.bpend.setdefault(n, self.loc)
                return self.put(*lab, m, self.use(n), size=2)
            near = [n for n, a in self.addrs[-12:] + self.consts[-12:] if -125 < a - self.loc < 125]
            if ref and near: return self.put(*lab, m, self.use(r.choice(near)), size=2)
            return self.put(*lab, m, self.num(r.randrange(256)), size=2)
        if kind == "JMP":
            m = r.choice(("JMP", "JMP", "JSR"))
            ind = m == "JMP" and r.random() < .35
            known = [n for n, a in self.addrs + self.consts]
            if fwd:
                both = self.pend + list(self.bpend)
                n = r.choice(both) if both and r.random() < self.reuse else self.fresh()
                if n not in self.bpend and n not in self.pend: self.pend.append(n)
                op = self.use(n)
            elif ref and known: op = self.use(r.choice(known))
            else: op = self.num(self.val())
            return self.put(*lab, self.case_(m), *(["(", op, ")"] if ind else [op]), size=3)
        if kind in ("none", "acc"):
            return self.put(*lab, self.case_(r.choice(LIKELY[kind])), *([self.case_("A")] if kind == "acc" else []), size=1)
        pool = [(n, v) for n, v in self.consts + self.addrs if v < 256 or kind in ("plain", "x", "y")]
        if ref and pool: n, v = r.choice(pool); op = self.use(n)
        else:
            v = self.val() if kind in ("plain", "x", "y") else r.choice((r.randrange(256), self.val() & 255)); op = self.num(v)
        wide = v > 255
        m = r.choice(LIKELY["yabs" if wide else "yzp"]) if kind == "y" else r.choice(LIKELY[kind])
        if m == "STY" and wide and kind == "x": m = "LDY"
        pre = {"imm": ["#"], "indx": ["("], "indy": ["("]}.get(kind, [])
        post = {"x": [",", self.case_("X")], "y": [",", self.case_("Y")], "indx": [",", self.case_("X"), ")"], "indy": [")", ",", self.case_("Y")]}.get(kind, [])
        self.put(*lab, self.case_(m), *pre, op, *post, size=3 if wide else 2)

    def flush(self, far=100):
        for n, at in list(self.bpend.items()):
            if n in self.bpend and self.loc - at > far - 4 * len(self.bpend):
                if self.r.random() < .2 and self.loc < 65000:
                    del self.bpend[n]
                    v = max(0, at + self.r.randrange(-120, 120))
                    self.consts.append((n, v))
                    self.put(self.use(n), "=", self.num(v))
                else:
                    t = self.label(n)
                    if t: self.put(*t, self.case_("NOP"), size=1)

    def write(self):
        r = self.r
        per = max(1, self.n // self.pieces)
        room = 3 * per + 150
        span = r.choice((room, room, 0x1000, 0xf000 // self.pieces))
        span = max(room, min(span, 0xfe00 // self.pieces))
        start = 0 if r.random() < .4 else r.choice((2, 0x80, 0xf0, 0x200, 0x7ff0, 0xffff - span * self.pieces))
        start = max(0, min(start, 0xffff - span * self.pieces))
        bases = [start + i * span for i in range(self.pieces)]
        order = r.choice((0, 1, 2))
        if order == 1: bases.reverse()
        if order == 2: r.shuffle(bases)
        self.loc = 0
        for b in bases:
            if b != self.loc or r.random() < .3:
                self.loc = b + (r.randrange(40) if b and r.random() < .3 else 0)
                l = self.num(self.loc)
                k = r.randrange(3)
                if k == 0: self.put(self.case_(".ORG"), " " + l)
                else: self.put("*", "=", l)
            todo = per
            while todo:
                if r.random() < self.pconst: self.const(r.choice(self.pend) if self.pend and r.random() < .3 else None) if r.random() < .9 else self.const()
                lab = []
                if r.random() < self.plabel:
                    wait = self.pend + list(self.bpend)
                    lab = self.label(r.choice(wait) if wait and r.random() < .6 else None)
                self.instr(lab)
                todo -= 1
                self.flush()
            self.flush(-1)
        for n in list(self.pend):
            if r.random() < .6:
                t = self.label(n)
                if t: self.put(*t, "RTS", size=1)
            else: self.const(n)

    def text(self):
        r = self.r
        ls = self.lines[:]
        # what was waited for as a constant is no longer awaited twice
        if r.random() < .18:
            i = r.randrange(len(ls) + 1)
            ls.insert(i, r.choice(("", " ", "\t")) + r.choice(BADLINES))
            if r.random() < .3: ls.insert(r.randrange(len(ls) + 1), r.choice(BADLINES))
        elif r.random() < .05 and self.addrs:
            ls.insert(r.randrange(len(ls) + 1), recase(r, r.choice(self.addrs + self.consts)[0]) + r.choice(("", ":", " = 3", " NOP")))
        if r.random() < .15:
            ls.insert(len(ls) if r.random() < .6 else r.randrange(len(ls) + 1), r.choice((".END", ".end ;", "\t.End")))
            for _ in range(r.randrange(4)): ls.append(r.choice(AFTEREND))
        t = self.eol.join(ls)
        return t + (self.eol if self.final else "")

def wild(rng, size=None):
    return Wild(rng, size).text()
