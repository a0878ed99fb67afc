------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* 64-bit machine words as the sets of the positions of their one bits.    *)
(* TLC's integers have 32 bits, and with sets "or" is union and "two       *)
(* fields overlap" is "the sets are not disjoint".                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

(* TLCEval(x) = x; TLC computes it there and then, and not each time it is *)
(* looked at                                                               *)

Shift(B, k) == {b + k : b \in B}

(* 0 <= n < 2^31 *)
BitsOf(n) == {i \in 0..30 : (n \div (2^i)) % 2 = 1}

(* the bytes are looked up, they are what most fields hold *)
ByteBits == TLCEval([n \in 0..255 |-> {i \in 0..7 : (n \div (2^i)) % 2 = 1}])
SmallBits(n) == IF n \in 0..255 THEN ByteBits[n] ELSE BitsOf(n)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

(* two's complement of the magnitude M in 64 bits: minus m is the lowest   *)
(* one bit of m and the complement of everything above it                  *)
Negated(M) == IF M = {} THEN {}
              ELSE LET l == MinOf(M) IN {b \in 0..63 : b = l \/ (b > l /\ b \notin M)}

HexChars == <<"0", "1", "2", "3", "4", "5", "6", "7",
              "8", "9", "A", "B", "C", "D", "E", "F">>
Nibble(B, k) == (IF 4*k \in B THEN 1 ELSE 0) + (IF 4*k + 1 \in B THEN 2 ELSE 0)
              + (IF 4*k + 2 \in B THEN 4 ELSE 0) + (IF 4*k + 3 \in B THEN 8 ELSE 0)
HexOf(B, k) == HexChars[Nibble(B, k) + 1]
ToHex(B) == HexOf(B, 15) \o HexOf(B, 14) \o HexOf(B, 13) \o HexOf(B, 12)
         \o HexOf(B, 11) \o HexOf(B, 10) \o HexOf(B, 9) \o HexOf(B, 8)
         \o HexOf(B, 7) \o HexOf(B, 6) \o HexOf(B, 5) \o HexOf(B, 4)
         \o HexOf(B, 3) \o HexOf(B, 2) \o HexOf(B, 1) \o HexOf(B, 0)

HexVal == TLCEval([c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9",
                  "A", "B", "C", "D", "E", "F", "a", "b", "c", "d", "e", "f"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
    [] c \in {"A", "a"} -> 10 [] c \in {"B", "b"} -> 11 [] c \in {"C", "c"} -> 12
    [] c \in {"D", "d"} -> 13 [] c \in {"E", "e"} -> 14 [] c \in {"F", "f"} -> 15])

(* the word written as 16 hexadecimal digits *)
FromHex(s) == {b \in 0..63 : (HexVal[SubSeq(s, 16 - b \div 4, 16 - b \div 4)]
                                \div (2^(b % 4))) % 2 = 1}
============================================================================
