----------------------------- MODULE Statement -----------------------------
(***************************************************************************)
(* Statements: options, the guard predicate, the choice of the form, the   *)
(* scheduling annotations.                                                 *)
(***************************************************************************)
EXTENDS Operands

(***************************************************************************)
(* Scheduling: the 21 bits of an instruction in its bundle's control word. *)
(*   0-3 stall   4 yield   5-7 write barrier   8-10 read barrier           *)
(*   11-16 waited barriers   17-19 operand reuse                           *)
(* No barrier is 7.                                                        *)
(***************************************************************************)
NoSched == [stall |-> -1, yield |-> FALSE, wb |-> -1, rb |-> -1, dep |-> {}]

SchedBits(c, reuse) ==
       (IF c.stall = -1 THEN {} ELSE ByteBits[c.stall])
  \cup (IF c.yield THEN {4} ELSE {})
  \cup Shift(IF c.wb = -1 THEN {0, 1, 2} ELSE ByteBits[c.wb], 5)
  \cup Shift(IF c.rb = -1 THEN {0, 1, 2} ELSE ByteBits[c.rb], 8)
  \cup Shift(c.dep, 11)
  \cup {CASE a = 8 -> 17 [] a = 20 -> 18 [] OTHER -> 19 : a \in reuse}

(* the slot of a bundle that has no instruction *)
EmptySlot == SchedBits(NoSched, {})

SmallInt(tok, max) ==                  \* the token is an integer from 0 to max
  tok.t = "int" /\ ~tok.neg /\ \A b \in tok.m : b < 5 /\ (Field(tok.m, 0, 5) <= max)

RECURSIVE Sched(_, _, _)
Sched(T, st, c) ==                     \* <<reading state, annotations>>
  IF st.s # "ok" \/ T[st.i].t # "@" THEN <<st, c>>
  ELSE LET a == Adv(T, st)
           Amount(max, next(_)) ==     \* the annotation has a number
             LET b == Adv(T, a)
             IN IF b.s # "ok" THEN <<b, c>>
                ELSE IF ~SmallInt(T[b.i], max) THEN <<Err(b), c>>
                ELSE Sched(T, Adv(T, b), next(Field(T[b.i].m, 0, 5)))
       IN IF a.s # "ok" THEN <<a, c>>
          ELSE IF Is(T, a, "WAIT")
          THEN IF c.stall # -1 THEN <<Err(a), c>>
               ELSE LET f(n) == [c EXCEPT !.stall = n] IN Amount(15, f)
          ELSE IF Is(T, a, "WB")
          THEN IF c.wb # -1 THEN <<Err(a), c>>
               ELSE LET f(n) == [c EXCEPT !.wb = n] IN Amount(5, f)
          ELSE IF Is(T, a, "RB")
          THEN IF c.rb # -1 THEN <<Err(a), c>>
               ELSE LET f(n) == [c EXCEPT !.rb = n] IN Amount(5, f)
          ELSE IF Is(T, a, "Y") \/ Is(T, a, "YIELD")
          THEN IF c.yield THEN <<Err(a), c>> ELSE Sched(T, Adv(T, a), [c EXCEPT !.yield = TRUE])
          ELSE IF Is(T, a, "DEP")
          THEN LET b == Adv(T, a)
               IN IF b.s # "ok" THEN <<b, c>>
                  ELSE IF ~SmallInt(T[b.i], 5) \/ Field(T[b.i].m, 0, 5) \in c.dep THEN <<Err(b), c>>
                  ELSE Sched(T, Adv(T, b), [c EXCEPT !.dep = @ \cup {Field(T[b.i].m, 0, 5)}])
          ELSE <<Err(a), c>>

(***************************************************************************)
(* One attempt: a statement read as one form, from the token after the     *)
(* mnemonic (at i), with the bits of its guard.  The score of an attempt   *)
(* that fails is how many operands it got through.                         *)
(***************************************************************************)
RECURSIVE ReadOps(_, _, _, _, _)
ReadOps(ops, k, T, st, E) ==           \* <<reading state, operand that failed or 0>>
  IF k > Len(ops) THEN <<st, 0>>
  ELSE LET n == Op(ops[k], T, st, E)
       IN IF n.s # "ok" THEN <<n, k>> ELSE ReadOps(ops, k + 1, T, n, E)

Attempt(form, T, i, guard, E) ==
  LET start == [s |-> "ok", i |-> i, w |-> guard \cup form.base, r |-> {}, x |-> <<"", "">>]
      st == Adv(T, [start EXCEPT !.i = i - 1])       \* the token may end it all
      Fail(s, score) == [s |-> s.s, i |-> s.i, score |-> score, w |-> {}, slot |-> {}]
  IN IF guard \cap form.base # {} THEN Fail([start EXCEPT !.s = "clash"], 0)
     ELSE IF ~form.guard /\ guard # {16, 17, 18} THEN Fail([Err(start) EXCEPT !.i = i - 1], 0)
     ELSE IF st.s # "ok" THEN Fail(st, 0)
     ELSE LET r == ReadOps(form.ops, 1, T, st, E)
          IN IF r[1].s # "ok" THEN Fail(r[1], r[2])
             ELSE LET c == Sched(T, r[1], NoSched)
                  IN IF c[1].s # "ok" THEN Fail(c[1], 1000 + Len(form.ops))
                     ELSE IF T[c[1].i].t # ";" THEN Fail(Err(c[1]), 1000 + Len(form.ops))
                     ELSE [s |-> "ok", i |-> c[1].i, score |-> 1000,
                           w |-> c[1].w, slot |-> SchedBits(c[2], c[1].r)]

(* the forms in order: the first that fits, or a token that ends it all,   *)
(* or else the failure that got furthest, the first of them                *)
RECURSIVE Choose(_, _, _, _, _, _, _)
Choose(forms, k, T, i, guard, E, best) ==
  IF k > Len(forms) THEN best
  ELSE LET a == Attempt(forms[k], T, i, guard, E)
       IN IF a.s # "err" THEN a
          ELSE Choose(forms, k + 1, T, i, guard, E, IF a.score > best.score THEN a ELSE best)

Result(s, i) == [s |-> s, i |-> i, score |-> -1, w |-> {}, slot |-> {}]

(* an instruction that starts at token i *)
Instruction(T, i, E) ==
  LET guarded == T[i].t = "@"
      At2(j) == T[j].t \in {"bad", "any"}
      StopAt(j) == Result(IF T[j].t = "bad" THEN "stop" ELSE "any", j)
      m == IF guarded THEN i + 2 ELSE i
  IN IF At2(i) THEN StopAt(i)
     ELSE IF guarded /\ At2(i + 1) THEN StopAt(i + 1)
     ELSE IF guarded /\ T[i + 1].t # "pred" THEN Result("err", i + 1)
     ELSE IF At2(m) THEN StopAt(m)
     ELSE IF T[m].t # "id" THEN Result("err", m)
     ELSE IF T[m].s \notin Mnemonics THEN Result("err", m)
     ELSE LET guard == IF guarded
                       THEN Shift(ByteBits[T[i + 1].n], 16) \cup Sign(T[i + 1].neg, 19)
                       ELSE {16, 17, 18}
          IN Choose(FormsOf[T[m].s], 1, T, m + 1, guard, E, Result("err", m))

(***************************************************************************)
(* Options come before an instruction, each on a line of its own.          *)
(***************************************************************************)
NoOptions == [dksh |-> FALSE, type |-> "", gprs |-> 8, wg |-> <<1, 1, 1>>, shared |-> 0, local |-> 0]

ProgramTypes ==
  [n \in {"vertex", "tess_control", "hull", "tess_eval", "domain", "geometry",
          "fragment", "pixel", "compute"} |->
     CASE n \in {"tess_control", "hull"} -> "tess_control" [] n \in {"tess_eval", "domain"} -> "tess_eval"
       [] n \in {"fragment", "pixel"} -> "fragment" [] OTHER -> n]

IsSize(tok) == tok.t = "int" /\ FitsU(tok, 24)
SizeVal(tok) == Field(tok.m, 0, 24)
IsOption(tok) == tok.t = "id" /\ SubSeq(tok.s, 1, 1) = "."

RECURSIVE Options(_, _, _)
Options(T, i, o) ==                    \* [s, i, o]: i is the first token that is no option
  LET line == T[i].ln
      R(s, j) == [s |-> s, i |-> j, o |-> o]
      Ends(j) == T[j].t \in {"bad", "any"}
      StopAt(j) == R(IF T[j].t = "bad" THEN "stop" ELSE "any", j)
      OnLine(j) == IsSize(T[j]) /\ T[j].ln = line
      (* after the option: a token on another line *)
      Then(j, o2) == IF Ends(j) THEN StopAt(j)
                     ELSE IF T[j].ln = line THEN R("err", j)
                     ELSE Options(T, j, o2)
      Type(o2) == IF o.type # "" THEN R("err", i)
                  ELSE IF Ends(i + 1) THEN StopAt(i + 1)
                  ELSE IF T[i + 1].ln # line THEN R("err", i + 1)
                  ELSE IF T[i + 1].t # "id" \/ T[i + 1].s \notin DOMAIN ProgramTypes THEN R("err", i + 1)
                  ELSE Then(i + 2, [o2 EXCEPT !.type = ProgramTypes[T[i + 1].s]])
  IN IF Ends(i) THEN StopAt(i)
     ELSE IF ~IsOption(T[i]) THEN R("ok", i)
     ELSE CASE T[i].s = ".dksh" -> Type([o EXCEPT !.dksh = TRUE])
            [] T[i].s = ".type" -> Type(o)
            [] T[i].s = ".num_gprs" ->
                 IF Ends(i + 1) THEN StopAt(i + 1)
                 ELSE IF ~OnLine(i + 1) THEN R("err", i + 1)
                 ELSE Then(i + 2, [o EXCEPT !.gprs = SizeVal(T[i + 1])])
            [] T[i].s = ".shared_memory" ->
                 IF Ends(i + 1) THEN StopAt(i + 1)
                 ELSE IF ~OnLine(i + 1) THEN R("err", i + 1)
                 ELSE Then(i + 2, [o EXCEPT !.shared = SizeVal(T[i + 1])])
            [] T[i].s = ".local_memory" ->
                 IF Ends(i + 1) THEN StopAt(i + 1)
                 ELSE IF ~OnLine(i + 1) THEN R("err", i + 1)
                 ELSE Then(i + 2, [o EXCEPT !.local = SizeVal(T[i + 1])])
            [] T[i].s = ".workgroup_size" ->
                 IF Ends(i + 1) THEN StopAt(i + 1)
                 ELSE IF ~OnLine(i + 1) THEN R("err", i + 1)
                 ELSE IF Ends(i + 2) THEN StopAt(i + 2)
                 ELSE IF ~OnLine(i + 2) THEN R("err", i + 2)
                 ELSE IF Ends(i + 3) THEN StopAt(i + 3)
                 ELSE IF ~OnLine(i + 3) THEN R("err", i + 3)
                 ELSE Then(i + 4, [o EXCEPT !.wg = <<SizeVal(T[i + 1]), SizeVal(T[i + 2]), SizeVal(T[i + 3])>>])
            [] OTHER -> R("err", i)

(***************************************************************************)
(* A statement: the tokens T, up to the semicolon.                         *)
(*   s = "end"   the text ended before it                                  *)
(*       "ok"    word w, scheduling slot, options after it                 *)
(*       "err"   rejected, because of token i  ("stop" is the same)        *)
(***************************************************************************)
Statement(T, o, E) ==
  IF T[1].t = "none" THEN [s |-> "end", i |-> 1, w |-> {}, slot |-> {}, o |-> o]
  ELSE LET p == Options(T, 1, o)
           Rej(s, i) == [s |-> IF s = "stop" THEN "err" ELSE s, i |-> i, w |-> {}, slot |-> {}, o |-> o]
       IN IF p.s # "ok" THEN Rej(p.s, p.i)
          ELSE LET r == Instruction(T, p.i, E)
               IN IF r.s # "ok" THEN Rej(r.s, r.i)
                  ELSE [s |-> "ok", i |-> r.i, w |-> r.w, slot |-> r.slot, o |-> p.o]
============================================================================
