----------------------------- MODULE Alphabets -----------------------------
(* Source lines the bounded models build programs from.                     *)
EXTENDS Sequences, Naturals

\* forward and backward references of every kind, origins between them
References == <<
  "F NOP", "F = $1234", ".DEFINE G $10", "G:",
  "JMP F", "JMP (F)", "JSR G", "BNE F", "BEQ G", "LDA F", "LDA G,X",
  "*=$7E", ".ORG $0100", ".END" >>

\* every way to use and define labels
Labels == <<
  "A1 = 5", "a1 .equ $300", ".DEFINE A1 %1", "A1: INX", "A1",
  "LDA #A1", "LDA A1", "STA A1,X", "JMP A1", "BPL A1",
  "LDX (A1,X)", "STA (A1),Y", "ab", "LDY AB" >>

\* directives in every spelling
Directives == <<
  ".ORG 3", "*=3", " * = $0103", "C = 3", "C .EQU 3", ".define c 3",
  "L", "LDA C", "STA L", "BMI L", "JSR L", ".END", "?!" , "X = 1" >>

\* one line per kind of error, and what must not be mistaken for one
Errors == <<
  "NOP", "L NOP", "  L", "LDA #$1G", "LDA $10000", "\tJMP M", " BNE M ; far",
  "M = $F000", "LDA (3", " .ORG", ".FOO", "STA #1", "LDX N", "*=$8O", ".END" >>

\* operand width and modes
Operands == <<
  "Z = $FF", "W = $100", "LDA Z", "LDA W", "LDA #Z", "LDA #W", "LDA Z,X",
  "LDA W,Y", "LDX Z,Y", "LDA Z,Y", "LDA (Z),Y", "LDA (W,X)", "JMP Z", "JMP (Z)",
  "BCC Z", "BCS $FF", "BVC $100", "STX 255,Y", "ASL", "ROR A", "BRK" >>

\* the same lines in several layouts
Layout == <<
  "LDA #$1F", "\tlda\t#$1f ; LDX #1", "  L :", "L  = 3", "l=3;", "L", "l: jmp l", "\t;", "",
  "JmP (Ll)", "ll\t.Equ\t%10", ".oRg $10", "* =16 ; c", " .end", "STA ( 3 ) , y", "sta(3),Y" >>

\* at the end of the address space
Top == <<
  "L NOP", "L:", "*=$FFFE", "*=$FFFF", "*=$FF80", "STA $1234", "JMP L", "JMP (L)", "LDA L", "LDX #L", "BNE L", "T = $FFFF", "JMP T", ".END" >>

\* branches that just reach, or just miss
Branching == <<
  "L", "F:", "BNE L", "BCC F", "F BVS F", "*=$7E", "*=$7F", "*=$81", "*=$82", "F = $81", "F = 130", "L = 0", "NOP" >>

\* a short program for fault enumeration
Short == << "NOP", "LDA $1234", "*=4", "JMP E", "E", "?", ".END" >>
=============================================================================
