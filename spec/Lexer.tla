------------------------------- MODULE Lexer -------------------------------
(* From the bytes of one physical line to its tokens.                       *)
(*                                                                          *)
(* A token is [k, s, v, at]: kind, name in capitals (labels) or mnemonic,   *)
(* value (literals), and the 1-based position of its first byte.  LexLine   *)
(* yields [toks, err, at]; err = "" unless the line has a lexical error,    *)
(* then at is the position of the offending byte.                           *)
EXTENDS Isa, Integers, SequencesExt

MaxToken == 63       \* longest label
MaxTokens == 8       \* no legal line has more than 7 tokens

\* nothing of the line is left at p but a comment (a carriage return counts
\* as part of the line's end only there)
IsLineEnd(line, p) == p > Len(line) \/ line[p] = 59 (* ; *) \/ (line[p] = CR /\ p = Len(line))
IsTokenEnd(c) == IsBlank(c) \/ c \in {CR, LF, 44, 40, 41, 59, EOFB}

At(line, i) == IF i <= Len(line) THEN line[i] ELSE LF

\* first position >= i whose byte satisfies P (the end of the line counts as
\* a byte LF just behind the last)
First(line, i, P(_)) ==
  CHOOSE j \in i..(Len(line) + 1) :
    /\ j > Len(line) \/ P(line[j])
    /\ \A k \in i..(j - 1) : ~P(line[k])

SkipBlanks(line, i) == First(line, i, LAMBDA c : ~IsBlank(c))

Tok(k, s, v, at) == [k |-> k, s |-> s, v |-> v, at |-> at]
Good(tok, next) == [tok |-> tok, next |-> next, err |-> "", at |-> 0]
Bad(err, at) == [tok |-> Tok("", <<>>, 0, 0), next |-> 0, err |-> err, at |-> at]

ILLCHAR  == "illegal character"
TOOBIG   == "value of literal exceeds 2 bytes"
TOOLONG  == "label exceeds 63 characters"
ILLDIR   == "illegal assembler directive"

----------------------------------------------------------------------------
\* Punctuation
Punct == ([c \in {35, 40, 41, 44, 61, 42} |->
            CASE c = 35 -> "#" [] c = 40 -> "(" [] c = 41 -> ")"
              [] c = 44 -> "," [] c = 61 -> "=" [] c = 42 -> "*"])

----------------------------------------------------------------------------
\* Words: a maximal run of bytes up to the end of the token or a colon
Word(line, i) ==
  LET e == First(line, i, LAMBDA c : IsTokenEnd(c) \/ c = 58)
      \* an offending byte within the room for a label is reported first
      b == First(line, i, LAMBDA c : ~IsWordChar(c))
  IN IF b < e /\ b < i + MaxToken + 1 THEN Bad(ILLCHAR, b)
     ELSE IF e - i > MaxToken THEN Bad(TOOLONG, i)
     ELSE LET w == UpSeq(SubSeq(line, i, e - 1)) IN
          Good(CASE w = <<88>> -> Tok("X", w, 0, i)
                 [] w = <<89>> -> Tok("Y", w, 0, i)
                 [] w = <<65>> -> Tok("A", w, 0, i)
                 [] w \in DOMAIN MnemonicOf -> Tok("INSTR", MnemonicOf[w], 0, i)
                 [] OTHER -> Tok("LABEL", w, 0, i),
               e)

----------------------------------------------------------------------------
\* Directives
DirectiveOf == ([s \in {Codes(d) : d \in {".DEFINE", ".EQU", ".ORG", ".END"}} |->
                  CHOOSE d \in {".DEFINE", ".EQU", ".ORG", ".END"} : Codes(d) = s])

Directive(line, i) ==
  LET e == First(line, i + 1, IsTokenEnd)
      b == First(line, i + 1, LAMBDA c : ~IsLetter(c))
      w == UpSeq(SubSeq(line, i, e - 1))
  IN IF b < e /\ b < i + MaxToken + 1 THEN Bad(ILLCHAR, b)
     ELSE IF e - i <= MaxToken /\ w \in DOMAIN DirectiveOf
          THEN Good(Tok(DirectiveOf[w], <<>>, 0, i), e)
          ELSE Bad(ILLDIR, i)

----------------------------------------------------------------------------
\* Literals
DigitVal(c) == IF IsDigit(c) THEN c - 48
               ELSE IF IsLetter(c) THEN Up(c) - 55 ELSE 99
Limit == 65536
\* exact up to Limit, Limit for anything above
ValueOf(digits, base) ==
  FoldLeft(LAMBDA acc, c : LET v == acc * base + DigitVal(c)
                           IN IF v >= Limit THEN Limit ELSE v, 0, digits)

Literal(line, i) ==
  LET c == line[i]
      base == CASE c = 36 -> 16 [] c = 37 -> 2 [] OTHER -> 10
      d == IF base = 10 THEN i ELSE i + 1
      e == First(line, d, LAMBDA x : DigitVal(x) >= base)
      v == ValueOf(SubSeq(line, d, e - 1), base)
  IN IF ~IsTokenEnd(At(line, e)) \/ e = d THEN Bad(ILLCHAR, e)
     ELSE IF v >= Limit THEN Bad(TOOBIG, i)
     ELSE Good(Tok("LITERAL", <<>>, v, i), e)

----------------------------------------------------------------------------
Token(line, i) ==
  LET c == line[i] IN
  CASE c \in DOMAIN Punct -> Good(Tok(Punct[c], <<>>, 0, i), i + 1)
    [] IsLetter(c) -> Word(line, i)
    [] IsDigit(c) \/ c = 36 \/ c = 37 -> Literal(line, i)
    [] c = 46 -> Directive(line, i)
    [] OTHER -> Bad(ILLCHAR, i)

\* Tokens are found from left to right; the line's lexical error is the first
\* one met.  A colon may only follow a label that is the line's first token.
RECURSIVE LexFrom(_, _, _)
LexFrom(line, i, toks) ==
  LET p == SkipBlanks(line, i) IN
  IF IsLineEnd(line, p) THEN [toks |-> toks, err |-> "", at |-> 0]
  ELSE LET t == Token(line, p) IN
       IF t.err # "" THEN [toks |-> toks, err |-> t.err, at |-> t.at]
       ELSE IF Len(toks) = MaxTokens
            THEN [toks |-> Append(toks, t.tok), err |-> "", at |-> 0]
       ELSE IF At(line, t.next) = 58
            THEN IF toks = <<>> /\ t.tok.k = "LABEL"
                 THEN LexFrom(line, t.next + 1, <<t.tok>>)
                 ELSE [toks |-> toks, err |-> ILLCHAR, at |-> t.next]
       ELSE LexFrom(line, t.next, Append(toks, t.tok))

LexLine(line) == LexFrom(line, 1, <<>>)

\* what a line means, apart from where its tokens stand
Shape(lx) == [toks |-> [i \in 1..Len(lx.toks) |->
                          [k |-> lx.toks[i].k, s |-> lx.toks[i].s, v |-> lx.toks[i].v]],
              err |-> lx.err]
Same(a, b) ==
  /\ a.err = b.err /\ Len(a.toks) = Len(b.toks)
  /\ \A i \in 1..Len(a.toks) : a.toks[i].k = b.toks[i].k /\ a.toks[i].s = b.toks[i].s /\ a.toks[i].v = b.toks[i].v

\* places where a second copy of the character, and hence any number of them,
\* says the same: blanks, comments, zeros that begin a number, and the end of
\* a word that is too long anyway (checked in MCChars and MCTokens)
Copied(line, i) == SubSeq(line, 1, i) \o SubSeq(line, i, Len(line))
Idle(line, i) ==
  \/ IsBlank(line[i])
  \/ \E j \in 1..i : line[j] = 59
  \/ /\ line[i] = 48
     /\ i > 1 => ~IsWordChar(line[i - 1]) /\ line[i - 1] # 46
  \/ \E s \in 1..(i - MaxToken - 1) :
       /\ IsLetter(line[s]) /\ \A j \in s..i : IsWordChar(line[j])
       /\ s > 1 => ~IsWordChar(line[s - 1]) /\ line[s - 1] \notin {36, 37, 46}
=============================================================================
