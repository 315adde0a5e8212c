-------------------------------- MODULE Isa --------------------------------
(* The NMOS 6502 instruction set: 56 mnemonics, 13 addressing modes, 151   *)
(* official opcodes.  Written down from the processor's data sheet, one    *)
(* mnemonic per row, independent of gaia's tables.                         *)
EXTENDS Naturals, Sequences, FiniteSets, Chars

Modes == {"IMP", "ACC", "IMM", "ZP", "ZPX", "ZPY", "ABS", "ABSX", "ABSY",
          "IND", "INDX", "INDY", "REL"}

\* bytes of a whole instruction
Size(mode) == CASE mode \in {"IMP", "ACC"} -> 1
                [] mode \in {"ABS", "ABSX", "ABSY", "IND"} -> 3
                [] OTHER -> 2

Op == [
 ADC |-> [IMM |-> \h69, ZP |-> \h65, ZPX |-> \h75, ABS |-> \h6D, ABSX |-> \h7D, ABSY |-> \h79, INDX |-> \h61, INDY |-> \h71],
 AND |-> [IMM |-> \h29, ZP |-> \h25, ZPX |-> \h35, ABS |-> \h2D, ABSX |-> \h3D, ABSY |-> \h39, INDX |-> \h21, INDY |-> \h31],
 ASL |-> [ACC |-> \h0A, ZP |-> \h06, ZPX |-> \h16, ABS |-> \h0E, ABSX |-> \h1E],
 BCC |-> [REL |-> \h90],
 BCS |-> [REL |-> \hB0],
 BEQ |-> [REL |-> \hF0],
 BIT |-> [ZP |-> \h24, ABS |-> \h2C],
 BMI |-> [REL |-> \h30],
 BNE |-> [REL |-> \hD0],
 BPL |-> [REL |-> \h10],
 BRK |-> [IMP |-> \h00],
 BVC |-> [REL |-> \h50],
 BVS |-> [REL |-> \h70],
 CLC |-> [IMP |-> \h18],
 CLD |-> [IMP |-> \hD8],
 CLI |-> [IMP |-> \h58],
 CLV |-> [IMP |-> \hB8],
 CMP |-> [IMM |-> \hC9, ZP |-> \hC5, ZPX |-> \hD5, ABS |-> \hCD, ABSX |-> \hDD, ABSY |-> \hD9, INDX |-> \hC1, INDY |-> \hD1],
 CPX |-> [IMM |-> \hE0, ZP |-> \hE4, ABS |-> \hEC],
 CPY |-> [IMM |-> \hC0, ZP |-> \hC4, ABS |-> \hCC],
 DEC |-> [ZP |-> \hC6, ZPX |-> \hD6, ABS |-> \hCE, ABSX |-> \hDE],
 DEX |-> [IMP |-> \hCA],
 DEY |-> [IMP |-> \h88],
 EOR |-> [IMM |-> \h49, ZP |-> \h45, ZPX |-> \h55, ABS |-> \h4D, ABSX |-> \h5D, ABSY |-> \h59, INDX |-> \h41, INDY |-> \h51],
 INC |-> [ZP |-> \hE6, ZPX |-> \hF6, ABS |-> \hEE, ABSX |-> \hFE],
 INX |-> [IMP |-> \hE8],
 INY |-> [IMP |-> \hC8],
 JMP |-> [ABS |-> \h4C, IND |-> \h6C],
 JSR |-> [ABS |-> \h20],
 LDA |-> [IMM |-> \hA9, ZP |-> \hA5, ZPX |-> \hB5, ABS |-> \hAD, ABSX |-> \hBD, ABSY |-> \hB9, INDX |-> \hA1, INDY |-> \hB1],
 LDX |-> [IMM |-> \hA2, ZP |-> \hA6, ZPY |-> \hB6, ABS |-> \hAE, ABSY |-> \hBE],
 LDY |-> [IMM |-> \hA0, ZP |-> \hA4, ZPX |-> \hB4, ABS |-> \hAC, ABSX |-> \hBC],
 LSR |-> [ACC |-> \h4A, ZP |-> \h46, ZPX |-> \h56, ABS |-> \h4E, ABSX |-> \h5E],
 NOP |-> [IMP |-> \hEA],
 ORA |-> [IMM |-> \h09, ZP |-> \h05, ZPX |-> \h15, ABS |-> \h0D, ABSX |-> \h1D, ABSY |-> \h19, INDX |-> \h01, INDY |-> \h11],
 PHA |-> [IMP |-> \h48],
 PHP |-> [IMP |-> \h08],
 PLA |-> [IMP |-> \h68],
 PLP |-> [IMP |-> \h28],
 ROL |-> [ACC |-> \h2A, ZP |-> \h26, ZPX |-> \h36, ABS |-> \h2E, ABSX |-> \h3E],
 ROR |-> [ACC |-> \h6A, ZP |-> \h66, ZPX |-> \h76, ABS |-> \h6E, ABSX |-> \h7E],
 RTI |-> [IMP |-> \h40],
 RTS |-> [IMP |-> \h60],
 SBC |-> [IMM |-> \hE9, ZP |-> \hE5, ZPX |-> \hF5, ABS |-> \hED, ABSX |-> \hFD, ABSY |-> \hF9, INDX |-> \hE1, INDY |-> \hF1],
 SEC |-> [IMP |-> \h38],
 SED |-> [IMP |-> \hF8],
 SEI |-> [IMP |-> \h78],
 STA |-> [ZP |-> \h85, ZPX |-> \h95, ABS |-> \h8D, ABSX |-> \h9D, ABSY |-> \h99, INDX |-> \h81, INDY |-> \h91],
 STX |-> [ZP |-> \h86, ZPY |-> \h96, ABS |-> \h8E],
 STY |-> [ZP |-> \h84, ZPX |-> \h94, ABS |-> \h8C],
 TAX |-> [IMP |-> \hAA],
 TAY |-> [IMP |-> \hA8],
 TSX |-> [IMP |-> \hBA],
 TXA |-> [IMP |-> \h8A],
 TXS |-> [IMP |-> \h9A],
 TYA |-> [IMP |-> \h98]
]

Mnemonics == DOMAIN Op
Branches == {"BCC", "BCS", "BEQ", "BMI", "BNE", "BPL", "BVC", "BVS"}
Jumps == {"JMP", "JSR"}
\* mnemonics whose accumulator mode may be written without an operand
Shifts == {"ASL", "LSR", "ROL", "ROR"}

Defines(m, mode) == mode \in DOMAIN Op[m]

Pairs == {p \in Mnemonics \X Modes : Defines(p[1], p[2])}
Opcodes == {Op[p[1]][p[2]] : p \in Pairs}

\* the disassembler: opcode -> <<mnemonic, mode>>
Decode == ([o \in Opcodes |-> CHOOSE p \in Pairs : Op[p[1]][p[2]] = o])

\* reserved words as byte sequences
MnemonicOf == ([s \in {Codes(m) : m \in Mnemonics} |->
                 CHOOSE m \in Mnemonics : Codes(m) = s])

ASSUME IsaIs56Mnemonics == Cardinality(Mnemonics) = 56
ASSUME IsaIs151Opcodes == Cardinality(Pairs) = 151 /\ Cardinality(Opcodes) = 151
ASSUME IsaBranchesAreRel == \A m \in Mnemonics : Defines(m, "REL") <=> m \in Branches
ASSUME IsaRelIsOnlyMode == \A m \in Branches : DOMAIN Op[m] = {"REL"}
ASSUME IsaShiftsHaveAcc == \A m \in Mnemonics : Defines(m, "ACC") <=> m \in Shifts
\* regularities of the 6502 decoder (bits bbb select the mode for cc=01)
ASSUME IsaColumns ==
  \A p \in Pairs : LET o == Op[p[1]][p[2]] IN
    /\ (p[2] = "REL") <=> (o % 32 = 16)
    /\ (o % 4 = 1) =>
         p[2] = <<"INDX","ZP","IMM","ABS","INDY","ZPX","ABSY","ABSX">>[((o \div 4) % 8) + 1]
=============================================================================
