"""The example programs that come with gaia, as they are and with changes
that a user might make to them."""
import os, re
from . import common

def originals():
    d = os.path.join(common.REPO, "example")
    r = []
    for root, _, files in sorted(os.walk(d)):
        for f in sorted(files):
            if f.lower().endswith((".asm", ".s")) and os.path.getsize(os.path.join(root, f)) < 20000:
                with open(os.path.join(root, f), "rb") as h:
                    r.append(h.read().decode("latin1"))
    return r

NUM = re.compile(r"\$[0-9A-Fa-f]+|%[01]+|\b[0-9]+\b")
WORD = re.compile(r"[A-Za-z_.$%#][A-Za-z0-9_]*|[(),=*:]|[0-9]+")

def spell(r, v):
    return r.choice(("$%x", "$%X", "$%04x", "%d", "$0%x")) % v if r.random() < .8 else "%" + bin(v)[2:]

def change(r, text, texts):
    ls = text.split("\n")
    def at(): return r.randrange(len(ls))
    k = r.randrange(16)
    if k == 0: del ls[at()]
    elif k == 1: i = at(); ls.insert(i, ls[i])
    elif k == 2: i, j = at(), at(); ls[i], ls[j] = ls[j], ls[i]
    elif k == 3: ls.insert(at(), r.choice(("*=$%X", ".ORG %d", "\t*=\t$0%x ; here")) % r.choice((0, 2, 0x200, 0x600, 0x7ff0, 0x8000, 0xc000, 0xff00)))
    elif k == 4:                                    # numbers
        i = at(); ls[i] = NUM.sub(lambda m: spell(r, r.choice((0, 1, 127, 128, 255, 256, 257, 0x1234, 65535, 65536))), ls[i], 1)
    elif k == 5:                                    # drop, double or replace a word
        i = at(); w = list(WORD.finditer(ls[i].split(";")[0]))
        if w:
            m = r.choice(w); new = r.choice(("", m.group() * 2, m.group() + " " + m.group(), "A", "X", "LATER", ",", ")", "#"))
            ls[i] = ls[i][:m.start()] + new + ls[i][m.end():]
    elif k == 6: ls = [l.upper() if r.random() < .5 else l.lower() for l in ls]
    elif k == 7: ls = [re.sub(r"[ \t]+", lambda m: r.choice((" ", "\t", "   ")), l) for l in ls]
    elif k == 8: ls = [l.split(";")[0] for l in ls]
    elif k == 9: ls.insert(at(), "; " + "x" * r.choice((0, 60, 120, 125, 126, 127, 128, 300)))
    elif k == 10: ls = ls[:at()]
    elif k == 11: ls.insert(at(), r.choice((".END", " .end ; stop", "Z9 = 5", ".DEFINE Z8 $80", "Z7 .EQU 300", "Z6", "")))
    elif k == 12:                                   # another program behind or between
        i = at(); ls[i:i] = [l for l in r.choice(texts).split("\n") if ".END" not in l.upper()]
    elif k == 13: ls = [l.rstrip("\r") + "\r" if l else l for l in ls]
    elif k == 14:                                   # rename one label everywhere
        names = sorted(set(re.findall(r"^[A-Za-z][A-Za-z0-9_]+", "\n".join(ls), re.M)))
        if names:
            o = r.choice(names); n = r.choice((o + "_", o + "2", o[:-1] or "Q", "L" * 63, o + "x" * (63 - len(o)), "STA1", "xy"))
            ls = [re.sub(r"\b%s\b" % o, n, l, flags=re.I) for l in ls]
    else:                                           # stretch the distances
        i = at(); ls[i:i] = [r.choice(("NOP", "STA $1234"))] * r.choice((1, 30, 50, 70, 127, 130))
    return "\n".join(ls)

def shipped(rng, n):
    """the programs themselves and n changed ones"""
    texts = originals()
    r = list(texts)
    for _ in range(n if texts else 0):
        t = rng.choice(texts)
        for _ in range(rng.choice((1, 1, 1, 2, 4))):
            t = change(rng, t, texts)
        if len(t) < 40000: r.append(t)
    return r
