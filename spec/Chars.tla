------------------------------- MODULE Chars -------------------------------
(* Source text is a sequence of byte values.  This module names the bytes  *)
(* that matter and converts readable strings to byte sequences.            *)
EXTENDS Naturals, Sequences, TLC

TAB == 9
LF  == 10
CR  == 13
SP  == 32
NUL == 0
EOFB == 255      \* ends a token, and as the very last byte the text

LOCAL Printable ==
  <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",
    "0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?",
    "@","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O",
    "P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","^","_",
    "`","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o",
    "p","q","r","s","t","u","v","w","x","y","z","{","|","}","~">>

CodeOf == ([c \in {Printable[i] : i \in 1..Len(Printable)} \cup {"\t", "\n"} |->
             IF c = "\t" THEN TAB ELSE IF c = "\n" THEN LF
             ELSE 31 + (CHOOSE i \in 1..Len(Printable) : Printable[i] = c)])

\* the bytes of a readable string
Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsLetter(c) == IsUpper(c) \/ IsLower(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsWordChar(c) == IsLetter(c) \/ IsDigit(c) \/ c = 95
IsBlank(c) == c = SP \/ c = TAB

Up(c) == IF IsLower(c) THEN c - 32 ELSE c
Down(c) == IF IsUpper(c) THEN c + 32 ELSE c
UpSeq(s) == [i \in 1..Len(s) |-> Up(s[i])]

ASSUME CodeOf["A"] = 65 /\ CodeOf["~"] = 126 /\ CodeOf[" "] = 32 /\ CodeOf["\\"] = 92
=============================================================================
