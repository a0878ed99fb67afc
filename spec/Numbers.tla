------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* The numeric literals of the language, exactly: integers of 64 bits and  *)
(* decimal floating-point literals, and the binary formats they are        *)
(* rounded to.  A non-negative number is a set of exponents S, its value   *)
(* being the sum of 2^i for i in S.                                        *)
(***************************************************************************)
EXTENDS Words

(***************************************************************************)
(* Digit strings.                                                          *)
(***************************************************************************)
RECURSIVE SmallVal(_, _, _, _)
SmallVal(s, i, base, acc) ==          \* the caller makes sure that it fits
  IF i > Len(s) THEN acc
  ELSE SmallVal(s, i + 1, base, acc * base + HexVal[SubSeq(s, i, i)])

RECURSIVE StripZeros(_, _)
StripZeros(s, i) == IF i > Len(s) THEN ""
                    ELSE IF SubSeq(s, i, i) = "0" THEN StripZeros(s, i + 1)
                    ELSE SubSeq(s, i, Len(s))

(* L: limbs of 16 bits, the lowest first; result: L * base + d, cut to the *)
(* same number of limbs, and what was cut                                  *)
RECURSIVE MulAdd(_, _, _, _)
MulAdd(L, base, d, k) ==
  IF k > Len(L) THEN <<L, d>>
  ELSE LET t == L[k] * base + d
       IN MulAdd([L EXCEPT ![k] = t % 65536], base, t \div 65536, k + 1)

RECURSIVE Limbs(_, _, _, _)
Limbs(s, i, base, L) ==               \* <<limbs, overflowed>>
  IF i > Len(s) THEN <<L, FALSE>>
  ELSE LET r == MulAdd(L, base, HexVal[SubSeq(s, i, i)], 1)
       IN IF r[2] # 0 THEN <<L, TRUE>> ELSE Limbs(s, i + 1, base, r[1])

LimbBits(L) == TLCEval(UNION {Shift(SmallBits(L[k]), 16 * (k - 1)) : k \in 1..Len(L)})

(* the magnitude of a digit string; 99 is a member when it needs more than *)
(* 64 bits                                                                 *)
Magnitude(digits, base) ==
  LET s == StripZeros(digits, 1)
  IN IF Len(s) <= (IF base = 10 THEN 9 ELSE 7) THEN SmallBits(SmallVal(s, 1, base, 0))
     ELSE LET r == Limbs(s, 1, base, <<0, 0, 0, 0>>)
          IN IF r[2] THEN {99} ELSE LimbBits(r[1])

(***************************************************************************)
(* Decimal fractions.  F: limbs of four decimal digits, the first one next *)
(* to the point.  One step multiplies by 2^16: what leaves at the point    *)
(* are the next 16 binary digits.                                          *)
(***************************************************************************)
RECURSIVE FracMul(_, _, _)
FracMul(F, k, carry) ==
  IF k = 0 THEN <<F, carry>>
  ELSE LET t == F[k] * 65536 + carry
       IN FracMul([F EXCEPT ![k] = t % 10000], k - 1, t \div 10000)

RECURSIVE FracBits(_, _, _)
FracBits(F, j, acc) ==                \* <<exponents, something below them>>
  IF j > 10 \/ \A k \in 1..Len(F) : F[k] = 0
  THEN <<acc, \E k \in 1..Len(F) : F[k] # 0>>
  ELSE LET r == FracMul(F, Len(F), 0)
       IN FracBits(r[1], j + 1, TLCEval(acc \cup Shift(SmallBits(r[2]), -16 * j)))

Pad4(s) == CASE Len(s) % 4 = 0 -> s [] Len(s) % 4 = 1 -> s \o "000"
             [] Len(s) % 4 = 2 -> s \o "00" [] OTHER -> s \o "0"
FracLimbs(s) == LET p == Pad4(s)
                IN [k \in 1..(Len(p) \div 4) |-> SmallVal(SubSeq(p, 4*k - 3, 4*k), 1, 10, 0)]

IntExponents(digits) ==               \* of an integer part, {400} when it is huge
  LET s == StripZeros(digits, 1)
  IN IF Len(s) <= 9 THEN SmallBits(SmallVal(s, 1, 10, 0))
     ELSE IF Len(s) > 45 THEN {400}
     ELSE LimbBits(Limbs(s, 1, 10, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>)[1])

(***************************************************************************)
(* Rounding to nearest, ties to even, to p significant bits, with no bit   *)
(* below 2^qmin.                                                           *)
(***************************************************************************)
Increment(S, q) ==
  LET j == CHOOSE x \in q..(q + 500) : x \notin S /\ \A y \in q..(x - 1) : y \in S
  IN TLCEval((S \ (q..(j - 1))) \cup {j})

RoundTo(S, sticky, p, qmin) ==
  IF S = {} THEN {}
  ELSE LET e == MaxOf(S)
           q == IF e - (p - 1) > qmin THEN e - (p - 1) ELSE qmin
           kept == {i \in S : i >= q}
           up == /\ (q - 1) \in S
                 /\ \/ sticky
                    \/ q \in S
                    \/ \E i \in S : i < q - 1
       IN IF up THEN Increment(kept, q) ELSE kept

(* a finite value or an infinity *)
Fin(S) == [inf |-> FALSE, S |-> S]
Inf == [inf |-> TRUE, S |-> {}]

(***************************************************************************)
(* IEEE 754 interchange encodings, without the sign: eb exponent bits and  *)
(* mb fraction bits.  The value must be representable but for overflow,    *)
(* which is an infinity.                                                   *)
(***************************************************************************)
Encode(v, eb, mb) ==
  LET bias == 2^(eb - 1) - 1
      ones == Shift(0..(eb - 1), mb)
  IN IF v.inf THEN ones
     ELSE IF v.S = {} THEN {}
     ELSE LET e == MaxOf(v.S)
          IN IF e > bias THEN ones
             ELSE IF e >= 1 - bias
             THEN Shift(BitsOf(e + bias), mb) \cup Shift(v.S \ {e}, mb - e)
             ELSE Shift(v.S, mb + bias - 1)

Single(v) == Encode(v, 8, 23)
Double(v) == Encode(v, 11, 52)
Half(v)   == Encode(v, 5, 10)

(* the single-precision value of a decimal literal *)
Literal(intDigits, fracDigits) ==
  LET f == FracBits(FracLimbs(fracDigits), 1, {})
      R == RoundTo(TLCEval(IntExponents(intDigits) \cup f[1]), f[2], 24, -149)
  IN IF R # {} /\ MaxOf(R) > 127 THEN Inf ELSE Fin(R)

ToSingle(v) == IF v.inf THEN v ELSE Fin(RoundTo(v.S, FALSE, 24, -149))
ToDouble(v) == IF v.inf THEN v ELSE Fin(RoundTo(v.S, FALSE, 53, -1074))
ToHalf(v)   == IF v.inf THEN v
               ELSE LET R == RoundTo(v.S, FALSE, 11, -24)
                    IN IF R # {} /\ MaxOf(R) > 15 THEN Inf ELSE Fin(R)

(* an integer magnitude has an exact single-precision value *)
ExactSingle(M) == M = {} \/ MaxOf(M) - MinOf(M) <= 23
============================================================================
