----------------------------- MODULE PassLayout ------------------------------
(***************************************************************************)
(* How the two passes count addresses, for programs of any length.  The    *)
(* first pass steps over the control word after an instruction, the second *)
(* before one.  Both agree with the closed form of Layout, which is what   *)
(* makes a label the address of the instruction after it.                  *)
(* Checked with Apalache: the invariant is inductive, n is not bounded.    *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  n,        \* instructions so far
  \* @type: Int;
  first,    \* address that the first pass would give to a label here
  \* @type: Int;
  second,   \* the second pass: where the last instruction ended
  \* @type: Int;
  words,    \* words in the image so far, without padding
  \* @type: Bool;
  even      \* first and second agreed on the last instruction

AddrOf(k) == 8 + 32 * (k \div 3) + 8 * (k % 3)

Init == n = 0 /\ first = 8 /\ second = 0 /\ words = 0 /\ even = TRUE

Instruction ==
  /\ n' = n + 1
  /\ first' = IF (first + 8) % 32 = 0 THEN first + 16 ELSE first + 8
  /\ second' = (IF second % 32 = 0 THEN second + 8 ELSE second) + 8
  /\ words' = IF n % 3 = 0 THEN words + 2 ELSE words + 1
  /\ even' = (first = IF second % 32 = 0 THEN second + 8 ELSE second)

Next == Instruction

IndInv ==
  /\ n >= 0
  /\ first = AddrOf(n)
  /\ second = 32 * (n \div 3) + 8 * (IF n % 3 = 0 THEN 0 ELSE (n % 3) + 1)
  /\ words = 4 * (n \div 3) + (IF n % 3 = 0 THEN 0 ELSE (n % 3) + 1)
  /\ even

\* @type: Bool;
IndInit == /\ n \in Int /\ first \in Int /\ second \in Int /\ words \in Int /\ even \in BOOLEAN
           /\ IndInv

Agree == /\ even
         /\ first % 32 # 0               \* a label is never a control word
         /\ 8 * words = second           \* addresses are positions in the image
         \* the image is padded to whole bundles, by fewer than three words
         /\ 4 * ((n + 2) \div 3) >= words /\ 4 * ((n + 2) \div 3) - words <= 2

(* the container: code is sealed to whole 256-byte blocks, with less than  *)
(* one block of zeros                                                      *)
Code == 4 * ((n + 2) \div 3)
Sealed == LET c == ((Code + 31) \div 32) * 32
          IN c >= Code /\ c - Code < 32 /\ (256 + 8 * c) % 256 = 0
==============================================================================
