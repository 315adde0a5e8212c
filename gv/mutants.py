"""Do the models' properties have teeth?  Each mutant is a specification with
one mistake; TLC must refute the property named beside it.  (A property that
no mistake can violate would say nothing about the machine.)"""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .common import *

#  module, text, replacement, model, its module, what must be refuted (None: any temporal property)
M = [
  ("Asm", "Displacement(at, dest) == dest - (at + 2)", "Displacement(at, dest) == dest - (at + 1)", "MCrefs", "MC", "SinglePassIsTwoPass"),
  ("Asm", "InRange(d) == d >= -128 /\\ d <= 127", "InRange(d) == d >= -128 /\\ d <= 128", "MCbranches", "MC", "SinglePassIsTwoPass"),
  ("Asm", "[] Size(mode) = 3 -> <<v % 256, (v \\div 256) % 256>>", "[] Size(mode) = 3 -> <<(v \\div 256) % 256, v % 256>>", "MCrefs", "MC", "SinglePassIsTwoPass"),
  ("Asm", "ELSE IF m \\in Jumps \\/ v > 255 THEN \"ABS\" ELSE \"ZP\"", "ELSE IF m \\in Jumps \\/ v >= 255 THEN \"ABS\" ELSE \"ZP\"", "MCoperands", "MC", "SinglePassIsTwoPass"),
  ("Asm", "[] shape = \"imm\" -> IF v <= 255 THEN \"IMM\" ELSE \"\"", "[] shape = \"imm\" -> \"IMM\"", "MCoperands", "MC", "SinglePassIsTwoPass"),
  ("Asm", "[] shape = \"ind\" /\\ m \\in Jumps -> \"IND\"\n    [] OTHER -> \"\"", "[] shape = \"ind\" /\\ m \\in Jumps -> \"IND\"\n    [] OTHER -> \"ABS\"", "MCrefs", "MC", "SinglePassIsTwoPass"),
  ("Asm", "Advance(n) == loc' = loc + n /\\ total' = total + n", "Advance(n) == loc' = loc + n /\\ total' = loc + n", "MCrefs", "MC", "TotalIsExact"),
  ("Asm", "pend' = Append(pend, [at", "pend' = SelectSeq(pend, LAMBDA r : r.name # cur.opd.s) \\o <<[at", "MCrefs", "MC", "PendKept"),
  ("Asm", "[at |-> Ref.at, bytes |->", "[at |-> loc, bytes |->", "MCrefs", "MC", "SinglePassIsTwoPass"),
  ("Asm", "phase = \"resolve\" /\\ ri > Len(pend)", "phase = \"resolve\" /\\ ri > Len(pend) /\\ ri # 2", "MCrefs", "MC", None),
  ("Asm", "/\\ loc' = cur.org /\\ phase' = \"read\"\n  /\\ UNCHANGED <<env, lineno, line, cur, sym,", "/\\ loc' = cur.org /\\ phase' = \"read\" /\\ sym' = IF IsLabel(sym, <<76>>) THEN [sym EXCEPT ![<<76>>] = cur.org] ELSE sym\n  /\\ UNCHANGED <<env, lineno, line, cur,", "MCdirectives", "MC", "SymAppendOnly"),
  ("Asm", "/\\ phase = \"line\" /\\ cur.err = \"\" /\\ cur.end\n  /\\ phase' = \"resolve\"", "/\\ phase = \"line\" /\\ cur.err = \"\" /\\ cur.end\n  /\\ phase' = \"read\"", "MCdirectives", "MC", "EndEnds"),
  ("Asm", "IF cur.def = \"addr\" THEN loc ELSE cur.val)", "IF cur.def = \"addr\" THEN loc ELSE cur.val + loc)", "MCdirectives", "MC", "SinglePassIsTwoPass"),
  ("Asm", "/\\ phase' = IF cur.instr = \"\" THEN \"read\" ELSE \"code\"\n  /\\ UNCHANGED <<env, lineno, line, cur, loc, pend, code, total,", "/\\ phase' = IF cur.instr = \"\" THEN \"read\" ELSE \"code\"\n  /\\ total' = total + 1 /\\ UNCHANGED <<env, lineno, line, cur, loc, pend, code,", "MClabels", "MC", "Quiet"),
  ("Asm", "Fits == env.cap < 0 \\/ Extent <= env.cap", "Fits == env.cap < 0 \\/ Extent <= env.cap + 1", "MCfaults", "MC", "SuccessMeansComplete"),
  ("Asm", "/\\ Finish(FileError(NOSOURCE))\n  /\\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, out>>\n\nCanCreate", "/\\ Finish(FileError(NOSOURCE)) /\\ out' = \"created\"\n  /\\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri>>\n\nCanCreate", "MCfaults", "MC", "SuccessMeansComplete"),
  ("Asm", "/\\ Finish(Diag(kind, Ref.no, Ref.line, Ref.opdAt))", "/\\ Finish(Diag(kind, lineno, Ref.line, Ref.opdAt))", "MCerrors", "MC", "Located"),
  ("Asm", "/\\ Finish(Diag(kind, lineno, line, at))", "/\\ Finish(Diag(kind, lineno + 1, line, at))", "MCerrors", "MC", "Located"),
  ("Asm", "/\\ cur.def = \"\" /\\ cur.instr # \"\"\n  /\\ phase' = \"code\"", "/\\ cur.def = \"\" /\\ cur.instr = \"JMP\"\n  /\\ phase' = \"code\"", "MCoperands", "MC", None),
  ("Lexer", "IF v >= Limit THEN Limit ELSE v, 0, digits)", "v % Limit, 0, digits)", "MCDigits", "MCChars", "LiteralExact"),
  ("Lexer", "IF ~IsTokenEnd(At(line, e)) \\/ e = d THEN Bad(ILLCHAR, e)", "IF e = d THEN Bad(ILLCHAR, e)", "MCDigits", "MCChars", None),
  ("Lexer", "w == UpSeq(SubSeq(line, i, e - 1)) IN", "w == SubSeq(line, i, e - 1) IN", "MCWords", "MCChars", "LayoutIrrelevant"),
  ("Lexer", "(line[p] = CR /\\ p = Len(line))", "line[p] = CR", "MCBytes", "MCChars", None),
  ("Lexer", "IF toks = <<>> /\\ t.tok.k = \"LABEL\"", "IF t.tok.k = \"LABEL\"", "MCWords", "MCChars", None),
  ("Lexer", "ELSE IF v >= Limit THEN Bad(TOOBIG, i)", "ELSE IF v >= Limit \\/ e - d > 2 THEN Bad(TOOBIG, i)", "MCDigits", "MCChars", "StretchIrrelevant"),
  ("Lexer", "ELSE IF e - i > MaxToken THEN", "ELSE IF e - i \\in {MaxToken + 1, MaxToken + 2} THEN", "MCWords", "MCChars", "StretchIrrelevant"),
  ("Grammar", "<<\"LABEL\", \"=\", \"LITERAL\">>,", "<<\"LABEL\", \"=\", \"LITERAL\">>, <<\"LABEL\", \"=\">>,", "MCTokens", "MCTokens", None),
  ("Store", "\\div Size(s) > 50", "\\div Size(s) > 500", "MCTiny", "MCStore", "Roomy"),
  ("Store", "At(k) == s[(h + k) % size]", "At(k) == s[IF h + k < size THEN h + k ELSE size - 1]", "MCStore", "MCStore", "Refines"),
  ("Store", "Fresh(NextPrime(2 * Size(s))), [i \\in 1..Size(s) |-> i])", "Fresh(NextPrime(2 * Size(s))), [i \\in 1..(Size(s) - 1) |-> i])", "MCStore", "MCStore", "Refines"),
  ("Store", "Refines == ", "Refines == NeverWraps /\\ ", "MCStore", "MCStore", "Refines"),
  ("Store", "Refines == ", "Refines == NeverGrows /\\ ", "MCStore", "MCStore", "Refines"),
  ("LabelTable", None, None, "MCTable", "MCTable", ""),          # as it is: holds
  ("Reader", "/\\ ~More /\\ len > 0\n", "/\\ (~More \\/ size = len + 1) /\\ len > 0\n", "MCReader", "MCReader", None),
  ("Reader", "Piece == Min(size - len - 1,", "Piece == Min(size - len,", "MCReader", "MCReader", "NoOverflow"),
  ("Session", "[] ws[i].as = \"end\" ->\n              Scan(<<>>, 1, args", "[] ws[i].as = \"end\" ->\n              Scan(<<>>, 1, <<>>", "MCargs", "Session", "MeansWhatItSays"),
  ("Session", "THEN IF Len(args) = 1", "THEN IF Len(args) >= 1", "MCargs", "Session", "MeansWhatItSays"),
  ("Session", "Scan(ws, i + 1, args, ws[i].val)", "Scan(ws, i + 1, args, IF o = \"a.out\" THEN ws[i].val ELSE o)", "MCargs", "Session", "MeansWhatItSays"),
  ("Asm", "/\\ phase = \"read\" /\\ env.src \\in {\"unreadable\", \"breaks\"}\n  /\\ Finish(FileError(NOSOURCE))", "/\\ phase = \"read\" /\\ env.src \\in {\"unreadable\", \"breaks\"}\n  /\\ IF env.src = \"breaks\" /\\ lineno > 0 THEN phase' = \"resolve\" /\\ verdict' = verdict ELSE Finish(FileError(NOSOURCE))", "MCfaults", "MC", "SuccessMeansComplete"),
  ("Session", "ELSE IF SameFile(s, o) THEN \"source\" ELSE \"ok\"", "ELSE \"ok\"", "MCruns", "Session", "OnlyOutput"),
  ("Session", "/\\ Reset([src |-> \"\", out |-> \"\", cap |-> -1, mem |-> \"ample\"]) /\\ UNCHANGED <<fsvars, job>>", "/\\ Reset([src |-> \"\", out |-> \"\", cap |-> -1, mem |-> \"ample\"]) /\\ files' = (\"o1\" :> 1) @@ files /\\ UNCHANGED <<disk, job>>", "MCargs", "Session", "OnlyRunsWrite"),
  ("Together", "THEN Put(pair.ob, bOut', bCode)", "THEN Put(IF phase = \"done\" THEN pair.ob ELSE pair.oa, bOut', bCode)", "MCtogether", "Together", None),
  ("Together", "bPhase = \"read\" /\\ LET ls == disk[pair.sb].lines", "bPhase = \"read\" /\\ LET ls == disk[\"s.asm\"].lines", "MCtogether", "Together", None),
  ("Together", "THEN Put(pair.oa, out', code)", "THEN Put(pair.oa, out', code \\o bCode)", "MCtogether", "Together", "AsIfAlone"),
  ("Together", "\\/ phase = \"read\" /\\ LET", "\\/ phase = \"read\" /\\ bPhase # \"read\" /\\ LET", "MCtogether", "Together", None),
  ("Session", "sym' = NoLabels", "sym' = sym", "MCruns", "Session", "Pure"),
  ("Asm", "/\\ Finish(FileError(NOMEMORY))", "/\\ Finish([NoVerdict EXCEPT !.st = \"ok\"])", "MCfaults", "MC", "SuccessMeansComplete"),
  ("Asm", "/\\ Finish(FileError(NOMEMORY))", "/\\ IF phase = \"code\" THEN phase' = \"read\" /\\ verdict' = verdict ELSE Finish(FileError(NOMEMORY))", "MCfaults", "MC", "SinglePassIsTwoPass"),
]

def run(k):
    mod, old, new, cfg, top, want = M[k]
    d = tempfile.mkdtemp(prefix="mu.", dir=scratch())
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")): shutil.copy(os.path.join(SPEC, f), d)
        if old is not None:
            p = os.path.join(d, mod + ".tla")
            s = open(p).read()
            if s.count(old) != 1: return "mutant %d (%s): text occurs %d times" % (k, mod, s.count(old))
            s = s.replace(old, new)
            if "\\o <<[at" in new: s = s.replace("opdAt |-> cur.opd.at])", "opdAt |-> cur.opd.at]>>")
            open(p, "w").write(s)
        c = os.path.join(d, cfg + ".cfg")
        s = re.sub(r"EmitTests = TRUE", "EmitTests = FALSE", open(c).read())
        s = re.sub(r"Depth = 4", "Depth = 3", s)
        open(c, "w").write(s)
        p = subprocess.run(["timeout", "-k", "5", "200", "java", "-Xss64m", "-Xmx2g", "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
                            "-metadir", os.path.join(d, "m"), "-workers", "1", "-config", cfg + ".cfg", top + ".tla"],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = p.stdout.decode("latin1")
        if want == "":
            return None if "No error has been found" in t else "model %s: %s" % (cfg, t[-1500:])
        m = re.findall(r"(?:Invariant|Action property|Temporal property) (\w+) (?:is|was) violated", t)
        if "Error: Assumption" in t: m.append("assumption")
        if "Temporal properties were violated" in t: m.append("temporal")
        if want is None and m: return None
        if want in m: return None
        return "mutant %d of %s (%s): refuted %s, not %s\n%s" % (k, mod, cfg, m or "nothing", want or "anything", t[-800:] if not m else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    todo = [k for k in range(len(M)) if M[k][1] is not None or M[k][5] == ""]
    with ThreadPoolExecutor(CPUS) as ex:
        bad = [r for r in ex.map(run, todo) if r]
    for b in bad: print(b)
    print("%d mutants of the specification, %d not refuted as expected" % (len(todo), len(bad)))
    return 1 if bad else 0

if __name__ == "__main__":
    import sys
    sys.exit(main())
