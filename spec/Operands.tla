----------------------------- MODULE Operands ------------------------------
(***************************************************************************)
(* The meaning of operands: how an operand of a form reads the tokens T of *)
(* a statement from position i on, and what it adds to the word.           *)
(*                                                                         *)
(* The reading state is                                                    *)
(*   s   "ok", or how the attempt ended:                                   *)
(*       "err"   the token at i does not fit                               *)
(*       "stop"  the token at i can't be part of any program               *)
(*       "any"   left open by this specification                           *)
(*       "clash" two operands wrote the same bit (never, see MCForms)      *)
(*   i   position of the next token                                        *)
(*   w   the bits written so far                                           *)
(*   r   the register slots marked for reuse (their field addresses)       *)
(*   x   modifiers that select the encoding of a later operand             *)
(*                                                                         *)
(* E = [pc, labels]: the address of the instruction and the labels.        *)
(***************************************************************************)
EXTENDS Lexer, IsaTable

ErrAt(st, j) == [st EXCEPT !.s = "err", !.i = j]
Err(st) == [st EXCEPT !.s = "err"]

Adv(T, st) ==
  LET t == T[st.i + 1].t
  IN [st EXCEPT !.i = @ + 1, !.s = IF t = "bad" THEN "stop" ELSE IF t = "any" THEN "any" ELSE @]

Add(st, B) == IF st.w \cap B # {} THEN [st EXCEPT !.s = "clash"] ELSE [st EXCEPT !.w = TLCEval(@ \cup B)]

Is(T, st, name) == T[st.i].t = "id" /\ T[st.i].s = name
Named(T, st, f) == T[st.i].t = "id" /\ T[st.i].s \in DOMAIN f

(* the token has to be of type t, and is passed *)
Expect(T, st, t) == IF st.s # "ok" THEN st ELSE IF T[st.i].t = t THEN Adv(T, st) ELSE Err(st)
ExpectWord(T, st, name) == IF st.s # "ok" THEN st ELSE IF Is(T, st, name) THEN Adv(T, st) ELSE Err(st)

(***************************************************************************)
(* Integers.                                                               *)
(***************************************************************************)
FitsU(tok, b) == ~tok.neg /\ (tok.m = {} \/ MaxOf(tok.m) < b)
FitsS(tok, b) == tok.m = {} \/ MaxOf(tok.m) < b - 1 \/ (tok.neg /\ tok.m = {b - 1})
Value(tok) == IF tok.neg THEN Negated(tok.m) ELSE tok.m           \* 64 bits
Low(B, b) == {x \in B : x < b}

IntOk(T, st, ok(_)) == T[st.i].t = "int" /\ ok(T[st.i])

UIntAt(T, st, b, a) ==
  IF st.s # "ok" THEN st
  ELSE IF T[st.i].t = "int" /\ FitsU(T[st.i], b) THEN Adv(T, Add(st, Shift(T[st.i].m, a))) ELSE Err(st)
SIntAt(T, st, b, a) ==
  IF st.s # "ok" THEN st
  ELSE IF T[st.i].t = "int" /\ FitsS(T[st.i], b)
       THEN Adv(T, Add(st, Shift(Low(Value(T[st.i]), b), a))) ELSE Err(st)

(***************************************************************************)
(* Registers.  The three source slots have an operand cache.               *)
(***************************************************************************)
TryReuse(T, st, a) ==
  IF st.s # "ok" \/ ~Is(T, st, ".reuse") THEN st
  ELSE IF a \in {8, 20, 39} THEN Adv(T, [st EXCEPT !.r = @ \cup {a}])
  ELSE Err(st)

GprAt(T, st, a) ==
  IF st.s # "ok" THEN st
  ELSE IF T[st.i].t # "reg" THEN Err(st)
  ELSE TryReuse(T, Adv(T, Add(st, Shift(ByteBits[T[st.i].n], a))), a)

(***************************************************************************)
(* Memory operands.                                                        *)
(***************************************************************************)
CbufOp(T, st) ==
  LET first == st.i
      a == Expect(T, ExpectWord(T, st, "c"), "[")
      b == Expect(T, Expect(T, UIntAt(T, a, 5, 34), "]"), "[")
  IN IF b.s # "ok" THEN b
     ELSE IF T[b.i].t # "int" \/ ~FitsS(T[b.i], 16) THEN Err(b)
     ELSE LET v == Low(Value(T[b.i]), 16)
          IN IF v \cap {0, 1} # {} THEN ErrAt(b, first)
             ELSE Expect(T, Adv(T, Add(b, Shift(v, 18))), "]")

MemOp(T, st, d) ==
  LET a == Expect(T, st, "[")
  IN IF a.s # "ok" THEN a
     ELSE LET isReg == T[a.i].t = "reg"
              n == IF isReg THEN T[a.i].n ELSE 255
              b0 == IF isReg THEN TryReuse(T, Adv(T, a), 8) ELSE a
              b == IF b0.s # "ok" THEN b0 ELSE Add(b0, Shift(ByteBits[n], 8))
          IN IF b.s # "ok" THEN b
             ELSE IF d.imm /\ T[b.i].t = "int"
             THEN LET tok == T[b.i]
                      fits == IF n = 255 THEN FitsU(tok, d.size) ELSE FitsS(tok, d.size)
                      v == Value(tok)
                  IN IF ~fits \/ v \cap 0..(d.shr - 1) # {} THEN Err(b)
                     ELSE Expect(T, Adv(T, Add(b, Shift(Low(Shift({x \in v : x >= d.shr}, -d.shr),
                                                           d.size), d.a))), "]")
             ELSE Expect(T, b, "]")

LdcOp(T, st, d) ==
  LET a == Expect(T, ExpectWord(T, st, "c"), "[")
      b == Expect(T, UIntAt(T, a, 5, 36), "]")
  IN IF b.s # "ok" THEN b ELSE MemOp(T, b, d.mem)

AttrImmOp(T, st) ==
  LET a == UIntAt(T, Expect(T, ExpectWord(T, st, "a"), "["), 10, 20)
  IN IF a.s # "ok" THEN a ELSE Expect(T, Add(a, 8..15), "]")

AttrPatchOp(T, st) ==
  LET a == GprAt(T, Expect(T, ExpectWord(T, st, "a"), "["), 8)
      b == IF a.s = "ok" /\ T[a.i].t = "+" THEN Adv(T, a) ELSE a
  IN Expect(T, SIntAt(T, b, 11, 20), "]")

AttrPhysOp(T, st) ==
  Expect(T, GprAt(T, Expect(T, ExpectWord(T, st, "a"), "["), 8), "]")

(***************************************************************************)
(* Floating-point operands.  All of them read a literal, an integer, or    *)
(* QNAN or INF with a sign before it: [st (after it), neg, nan, v].        *)
(***************************************************************************)
FloatArg(T, st) ==
  LET tok == T[st.i]
      Special(s2, neg) ==
        IF s2.s # "ok" THEN [st |-> s2, neg |-> neg, nan |-> FALSE, int |-> FALSE, v |-> Inf]
        ELSE IF Is(T, s2, "QNAN") \/ Is(T, s2, "INF")
        THEN [st |-> Adv(T, s2), neg |-> neg, nan |-> Is(T, s2, "QNAN"), int |-> FALSE, v |-> Inf]
        ELSE [st |-> Err(s2), neg |-> neg, nan |-> FALSE, int |-> FALSE, v |-> Inf]
  IN CASE tok.t = "flt" -> [st |-> Adv(T, st), neg |-> tok.neg, nan |-> FALSE, int |-> FALSE, v |-> tok.v]
       [] tok.t = "int" -> [st |-> Adv(T, st), neg |-> tok.neg, nan |-> FALSE, int |-> TRUE, v |-> Fin(tok.m)]
       [] tok.t \in {"+", "-"} -> Special(Adv(T, st), tok.t = "-")
       [] tok.t = "id" -> Special(st, FALSE)
       [] OTHER -> [st |-> Err(st), neg |-> FALSE, nan |-> FALSE, int |-> FALSE, v |-> Inf]

Sign(neg, at) == IF neg THEN {at} ELSE {}

(* the bits are added before the assembler looks at the next token, which  *)
(* does not matter: an attempt that ends there has no word                 *)
Put(r, B) == IF r.st.s # "ok" THEN r.st ELSE Add(r.st, B)

SingleOp(T, st, bits) ==
  LET r == FloatArg(T, st)
  IN IF r.int /\ ~ExactSingle(r.v.S) THEN Err(st)
     ELSE LET raw == (IF r.nan THEN Shift(0..8, 22) ELSE Single(r.v)) \cup Sign(r.neg, 31)
          IN IF bits = 32 THEN Put(r, Shift(raw, 20))
             ELSE Put(r, {x + 8 : x \in raw \cap 12..30} \cup Sign(r.neg, 56))

DoubleOp(T, st) ==
  LET r == FloatArg(T, st)
      raw == IF r.nan THEN Shift(0..11, 51) ELSE Double(ToDouble(r.v))
  IN Put(r, {x - 24 : x \in raw \cap 44..62} \cup Sign(r.neg, 56))

HalfBits(r) == IF r.nan THEN 0..14 ELSE Half(ToHalf(ToSingle(r.v)))
Half9Op(T, st, d) ==
  LET r == FloatArg(T, st)
  IN Put(r, {x - 6 + d.a : x \in HalfBits(r) \cap 6..14} \cup Sign(r.neg, d.n))
Half16Op(T, st, d) ==
  LET r == FloatArg(T, st)
  IN Put(r, Shift(HalfBits(r) \cup Sign(r.neg, 15), d.a))

(***************************************************************************)
(* Branch targets: relative to the next instruction, 24 bits, signed.      *)
(***************************************************************************)
LabelOp(T, st, E) ==
  LET tok == T[st.i]
      Target(abs) ==                   \* a small integer
        LET rel == abs - E.pc - 8
        IN IF rel > 8388607 \/ rel < -8388608 THEN Err(st)
           ELSE Adv(T, Add(st, Shift(SmallBits((rel + 8388608) % 8388608), 20)
                                 \cup Sign(rel < 0, 43)))
  IN IF tok.t = "id"
     THEN IF tok.s \in DOMAIN E.labels THEN Target(E.labels[tok.s]) ELSE Err(st)
     ELSE IF tok.t = "int"
     THEN IF tok.m = {} THEN Target(0)
          ELSE IF MaxOf(tok.m) > 27 THEN Err(st)
          ELSE LET RECURSIVE Sum(_)
                   Sum(B) == IF B = {} THEN 0 ELSE LET b == MinOf(B) IN 2^b + Sum(B \ {b})
               IN Target(IF tok.neg THEN -Sum(tok.m) ELSE Sum(tok.m))
     ELSE Err(st)

(***************************************************************************)
(* Operands with rules of their own.                                       *)
(***************************************************************************)
Field(w, a, n) ==                       \* the number in n bits of w at a
  LET RECURSIVE Val(_)
      Val(k) == IF k = n THEN 0 ELSE (IF a + k \in w THEN 2^k ELSE 0) + Val(k + 1)
  IN Val(0)

XSignsOp(T, st) ==
  IF ~Is(T, st, ".S16") /\ ~Is(T, st, ".U16") THEN st
  ELSE LET a == Adv(T, IF Is(T, st, ".S16") THEN Add(st, {48}) ELSE st)
       IN IF a.s # "ok" THEN a
          ELSE IF Is(T, a, ".S16") THEN Adv(T, Add(a, {49}))
          ELSE IF Is(T, a, ".U16") THEN Adv(T, a)
          ELSE Err(a)

(* a name of f, or else the default *)
DefaultOp(T, st, f, def) ==
  IF Named(T, st, f) THEN Adv(T, Add(st, f[T[st.i].s])) ELSE Add(st, def)

S2ROp(T, st, d) ==
  IF Is(T, st, "SR_TID")
  THEN LET a == Adv(T, st)
       IN IF a.s # "ok" THEN a
          ELSE IF Is(T, a, ".X") THEN Adv(T, Add(a, Shift(SmallBits(33), 20)))
          ELSE IF Is(T, a, ".Y") THEN Adv(T, Add(a, Shift(SmallBits(34), 20)))
          ELSE IF Is(T, a, ".Z") THEN Adv(T, Add(a, Shift(SmallBits(35), 20)))
          ELSE Add(a, Shift(SmallBits(32), 20))
  ELSE IF Is(T, st, "SR_CTAID")
  THEN LET a == Adv(T, st)
       IN IF a.s # "ok" THEN a
          ELSE IF Is(T, a, ".X") THEN Adv(T, Add(a, Shift(SmallBits(37), 20)))
          ELSE IF Is(T, a, ".Y") THEN Adv(T, Add(a, Shift(SmallBits(38), 20)))
          ELSE IF Is(T, a, ".Z") THEN Adv(T, Add(a, Shift(SmallBits(39), 20)))
          ELSE Err(a)
  ELSE IF Named(T, st, d.f) THEN Adv(T, Add(st, d.f[T[st.i].s]))
  ELSE Err(st)

LdgSizeOp(T, st, d) ==
  IF Is(T, st, ".U")
  THEN LET a == Adv(T, st)
       IN IF a.s # "ok" THEN a
          ELSE IF Is(T, a, ".128") THEN Adv(T, Add(a, d.f[".U"]))
          ELSE Err(a)
  ELSE DefaultOp(T, st, d.f, d.def)

AtomSizeOp(T, st, d) ==
  LET Rest(a, name, next) ==            \* .RN, and .FTZ before it
        LET b == ExpectWord(T, a, ".RN") IN IF b.s # "ok" THEN b ELSE Add(b, d.f[name])
  IN IF Is(T, st, ".F32") THEN Rest(ExpectWord(T, Adv(T, st), ".FTZ"), ".F32", "")
     ELSE IF Is(T, st, ".F16x2") THEN Rest(Adv(T, st), ".F16x2", "")
     ELSE DefaultOp(T, st, d.f, d.def)

(* TEXS: level of detail and depth compare are encoded with the type *)
TexsModeOp(T, st) ==
  LET lod == IF Is(T, st, ".LZ") THEN "LZ" ELSE IF Is(T, st, ".LL") THEN "LL" ELSE ""
      a == IF lod = "" THEN st ELSE Adv(T, st)
  IN IF a.s # "ok" THEN a
     ELSE IF Is(T, a, ".DC") THEN Adv(T, [a EXCEPT !.x = <<lod, "DC">>])
     ELSE [a EXCEPT !.x = <<lod, "">>]

TexsCodes ==                            \* type, level, depth compare
  [x \in {<<"1D", "LZ", "">>,
          <<"2D", "", "">>, <<"2D", "LZ", "">>, <<"2D", "LL", "">>,
          <<"2D", "", "DC">>, <<"2D", "LL", "DC">>, <<"2D", "LZ", "DC">>,
          <<"ARRAY_2D", "", "">>, <<"ARRAY_2D", "LZ", "">>, <<"ARRAY_2D", "LZ", "DC">>,
          <<"3D", "", "">>, <<"3D", "LZ", "">>,
          <<"CUBE", "", "">>, <<"CUBE", "LL", "">>} |->
     CASE x = <<"1D", "LZ", "">> -> 0
       [] x = <<"2D", "", "">> -> 1 [] x = <<"2D", "LZ", "">> -> 2 [] x = <<"2D", "LL", "">> -> 3
       [] x = <<"2D", "", "DC">> -> 4 [] x = <<"2D", "LL", "DC">> -> 5 [] x = <<"2D", "LZ", "DC">> -> 6
       [] x = <<"ARRAY_2D", "", "">> -> 7 [] x = <<"ARRAY_2D", "LZ", "">> -> 8
       [] x = <<"ARRAY_2D", "LZ", "DC">> -> 9
       [] x = <<"3D", "", "">> -> 10 [] x = <<"3D", "LZ", "">> -> 11
       [] x = <<"CUBE", "", "">> -> 12 [] OTHER -> 13]

TexsTypeOp(T, st) ==
  IF T[st.i].t # "id" THEN Err(st)
  ELSE LET key == <<T[st.i].s, st.x[1], st.x[2]>>
       IN IF key \in DOMAIN TexsCodes
          THEN Adv(T, Add(st, Shift(SmallBits(TexsCodes[key]), 53)))
          ELSE Err(st)

(* TLDS: .LL, .AOFFI and .MS select the code of the type *)
TldsCodes ==
  [x \in {<<"1D", {}>>, <<"1D", {0}>>, <<"2D", {}>>, <<"2D", {1}>>, <<"2D", {0}>>, <<"2D", {2}>>,
          <<"2D", {0, 1}>>, <<"3D", {}>>, <<"ARRAY_2D", {}>>} |->
     CASE x = <<"1D", {}>> -> 0 [] x = <<"1D", {0}>> -> 1 [] x = <<"2D", {}>> -> 2
       [] x = <<"2D", {1}>> -> 4 [] x = <<"2D", {0}>> -> 5 [] x = <<"2D", {2}>> -> 6
       [] x = <<"3D", {}>> -> 7 [] x = <<"ARRAY_2D", {}>> -> 8 [] OTHER -> 12]

TldsTypeOp(T, st, d) ==
  IF T[st.i].t # "id" THEN Err(st)
  ELSE LET mods == Shift(st.w \cap (d.a)..(d.a + 2), -d.a)       \* {LL, AOFFI, MS}
           key == <<T[st.i].s, mods>>
       IN IF key \in DOMAIN TldsCodes
          THEN Adv(T, Add([st EXCEPT !.w = @ \ ((d.a)..(d.a + 2))], Shift(SmallBits(TldsCodes[key]), d.a)))
          ELSE Err(st)

FlowOp(T, st, d) ==
  IF ~Is(T, st, "CC") THEN Add(st, d.def)
  ELSE LET a == Adv(T, st)
       IN IF a.s # "ok" THEN a
          ELSE IF Named(T, a, d.f) THEN Adv(T, Add(a, d.f[T[a.i].s]))
          ELSE Err(a)

(***************************************************************************)
(* One operand.                                                            *)
(***************************************************************************)
RECURSIVE Op(_, _, _, _)
Op(d, T, st, E) ==
  CASE d.k = "comma" -> Expect(T, st, ",")
    [] d.k = "gpr"   -> GprAt(T, st, d.a)
    [] d.k = "flag"  -> IF ~Is(T, st, d.s) THEN st
                        ELSE IF d.a \in st.w THEN Err(st)
                        ELSE Adv(T, Add(st, {d.a}))
    [] d.k = "dot"   -> IF Named(T, st, d.f) THEN Adv(T, Add(st, d.f[T[st.i].s]))
                        ELSE IF d.req THEN Err(st) ELSE Add(st, d.def)
    [] d.k = "neg"   -> IF T[st.i].t # "-" THEN st
                        ELSE IF d.a \in st.w THEN Err(st)
                        ELSE Adv(T, Add(st, {d.a}))
    [] d.k = "abs"   -> IF T[st.i].t # "|" THEN Op(d.d, T, st, E)
                        ELSE LET a == Adv(T, Add(st, {d.a}))
                             IN IF a.s # "ok" THEN a ELSE Expect(T, Op(d.d, T, a, E), "|")
    [] d.k = "cbuf"  -> CbufOp(T, st)
    [] d.k = "imm20" -> IF T[st.i].t = "int" /\ FitsS(T[st.i], 20)
                        THEN LET v == Value(T[st.i])
                             IN Adv(T, Add(st, Shift(Low(v, 19), 20) \cup Sign(T[st.i].neg, 56)))
                        ELSE Err(st)
    [] d.k = "f20"   -> SingleOp(T, st, 20)
    [] d.k = "f32"   -> SingleOp(T, st, 32)
    [] d.k = "d20"   -> DoubleOp(T, st)
    [] d.k = "h9"    -> Half9Op(T, st, d)
    [] d.k = "h16"   -> Half16Op(T, st, d)
    [] d.k = "pred"  -> IF T[st.i].t # "pred" \/ T[st.i].neg THEN Err(st)
                        ELSE Adv(T, Add(st, Shift(ByteBits[T[st.i].n], d.a)))
    [] d.k = "predn" -> IF T[st.i].t # "pred" THEN Err(st)
                        ELSE Adv(T, Add(st, Shift(ByteBits[T[st.i].n], d.a)
                                             \cup Sign(T[st.i].neg, d.a + 3)))
    [] d.k = "ipred" -> IF T[st.i].t # "pred" \/ T[st.i].neg THEN Err(st)
                        ELSE Adv(T, Add(st, Shift(ByteBits[7 - T[st.i].n], d.a)))
    [] d.k = "uint"  -> UIntAt(T, st, d.b, d.a)
    [] d.k = "sint"  -> SIntAt(T, st, d.b, d.a)
    [] d.k = "uext"  -> IF T[st.i].t = "int" /\ FitsU(T[st.i], 20)
                        THEN Adv(T, Add(st, Shift(Low(T[st.i].m, 19), 20) \cup Sign(19 \in T[st.i].m, 56)))
                        ELSE Err(st)
    [] d.k = "const" -> Add(st, d.B)
    [] d.k = "req"   -> IF Is(T, st, d.s) THEN Adv(T, Add(st, d.B)) ELSE Err(st)
    [] d.k = "opt"   -> IF Is(T, st, d.s) THEN Adv(T, st) ELSE st
    [] d.k = "mem"   -> MemOp(T, st, d)
    [] d.k = "tilde" -> IF T[st.i].t # "~" THEN st ELSE Adv(T, Add(st, {d.a}))
    [] d.k = "po"    -> IF Is(T, st, ".PO") THEN Adv(T, Add(st, {d.a, d.b})) ELSE st
    [] d.k = "label" -> LabelOp(T, st, E)
    [] d.k = "flow"  -> FlowOp(T, st, d)
    [] d.k = "mirror" ->
         IF T[st.i].t # "reg" THEN Err(st)
         ELSE LET same == Shift(ByteBits[T[st.i].n], d.a) = st.w \cap (d.a)..(d.a + 7)
                  a == TryReuse(T, Adv(T, st), d.a)
              IN IF a.s # "ok" THEN a ELSE IF same THEN a ELSE Err(a)
    [] d.k = "xsigns" -> XSignsOp(T, st)
    [] d.k = "f2fround" ->
         IF Field(st.w, 8, 2) = Field(st.w, 10, 2) THEN DefaultOp(T, st, d.same, {})
         ELSE DefaultOp(T, st, d.diff, {})
    [] d.k = "intfmt" ->
         IF Named(T, st, d.u) THEN Adv(T, Add(st, d.u[T[st.i].s]))
         ELSE IF Named(T, st, d.s) THEN Adv(T, Add(st, d.s[T[st.i].s] \cup {d.sa}))
         ELSE Err(st)
    [] d.k = "srcfmt" ->
         IF Named(T, st, d.u) THEN Adv(T, Add(st, d.u[T[st.i].s]))
         ELSE IF Named(T, st, d.s) THEN Adv(T, Add(st, d.s[T[st.i].s] \cup {d.sa}))
         ELSE Add(st, d.def \cup {d.sa})
    [] d.k = "seli"  -> DefaultOp(T, st, IF Field(st.w, d.ta, 2) = 1 THEN d.shorts ELSE d.bytes, {})
    [] d.k = "selv"  -> IF Field(st.w, d.ta, 2) = 3 THEN st
                        ELSE DefaultOp(T, st, IF Field(st.w, d.ta, 2) = 2 THEN d.shorts ELSE d.bytes, {})
    [] d.k = "s2r"   -> S2ROp(T, st, d)
    [] d.k = "ldgsize" -> LdgSizeOp(T, st, d)
    [] d.k = "atomsize" -> AtomSizeOp(T, st, d)
    [] d.k = "ldcaddr" -> LdcOp(T, st, d)
    [] d.k = "attrimm" -> AttrImmOp(T, st)
    [] d.k = "attrpatch" -> AttrPatchOp(T, st)
    [] d.k = "attrphys" -> AttrPhysOp(T, st)
    [] d.k = "zero"  -> IF T[st.i].t = "int" /\ T[st.i].m = {} THEN Adv(T, st) ELSE Err(st)
    [] d.k = "texsmode" -> TexsModeOp(T, st)
    [] d.k = "texstype" -> TexsTypeOp(T, st)
    [] d.k = "tldstype" -> TldsTypeOp(T, st, d)
    [] d.k = "swizzle" ->
         LET f == IF 28..35 \subseteq st.w THEN d.one ELSE d.two
         IN IF Named(T, st, f) THEN Adv(T, Add(st, f[T[st.i].s])) ELSE Err(st)
============================================================================
