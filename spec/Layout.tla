------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Where instructions are.  Code is a sequence of bundles of four words: a *)
(* control word and three instructions.  Instructions count from 0.        *)
(***************************************************************************)
EXTENDS Words

AddrOf(k)      == 8 + 32 * (k \div 3) + 8 * (k % 3)     \* in bytes
WordOf(k)      == AddrOf(k) \div 8                      \* index in the code, from 0
ControlOf(k)   == 4 * (k \div 3)
CodeWords(n)   == 4 * ((n + 2) \div 3)                  \* of n instructions
PaddingNop     == FromHex("50B0000000070F00")

(* the control word of a bundle with these slots; a missing one is empty *)
ControlWord(slots, empty) ==
  LET slot(k) == IF k <= Len(slots) THEN slots[k] ELSE empty
  IN slot(1) \cup Shift(slot(2), 21) \cup Shift(slot(3), 42)
=============================================================================
