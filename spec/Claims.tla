------------------------------- MODULE Claims -------------------------------
(***************************************************************************)
(* What a diagnostic says about the text, and whether it is so.  A claim   *)
(* is a record [k, a], a being a sequence of strings:                      *)
(*   "quote"    this word stands at the reported place ("": no name)       *)
(*   "found"    the word there is of this kind                             *)
(*   "wanted"   a word of this kind would do there                         *)
(*   "words"    each of these words would do there                         *)
(*   "some"     one of these words would do there                          *)
(*   "types"    each of these would do there after other modifiers         *)
(*   "value"    the number there has this value                            *)
(*   "outside"  none of these numbers would do there                       *)
(*   "aligned"  the number there is no multiple of 2^a                     *)
(*   "cbuf"     so is the offset of the constant buffer that starts there, *)
(*              where the second would not do, and the third would         *)
(*   "negated"  the predicate there is negated                             *)
(*   "mnemonic", "option", "type"  there is none of this name              *)
(*   "label"    there is no label of this name                             *)
(*   "twice"    this label is defined before                               *)
(*   "guarded"  the statement has a guard, and would do without            *)
(*   "before"   the annotation there stands before it as well              *)
(*   "stands"   these settings are there, or before, all of them           *)
(*   "other"    this setting is not among those before                     *)
(*   "far"      the target there is a number, or a label that is defined   *)
(*   "line"     the word there is on another line than the option          *)
(*   "nul"      the text has a null character                              *)
(*   "entry"    there is no label of this name, where the code starts      *)
(*   "bundle"   the entry point is not at the start of a bundle            *)
(* To see whether a word would do, it is put in the place of the word that *)
(* is there: the statement must then be a statement, or fail further on.   *)
(***************************************************************************)
EXTENDS Assembler

KindNames ==
  "nothing" :> "none" @@ "identifier" :> "id" @@ "register" :> "reg" @@ "predicate" :> "pred" @@
  "immediate" :> "int" @@ "floating-point immediate" :> "flt" @@ "plus" :> "+" @@ "minus" :> "-" @@
  "tilde" :> "~" @@ "vertical bar" :> "|" @@ "squared bracket left" :> "[" @@
  "squared bracket right" :> "]" @@ "at" :> "@" @@ "semicolon" :> ";" @@ "comma" :> ","

(* words of each kind, to be put in the place *)
Examples(t) ==
  CASE t = "reg" -> {"R0", "R1", "RZ"} [] t = "pred" -> {"P0"} [] t = "int" -> {"0", "4", "1", "2", "3", "5", "6"}
    [] t = "flt" -> {"1.0"} [] t = "id" -> {"NOP", "compute", "c", "a", ".F", ".T", "X"} [] t = "none" -> {""} [] OTHER -> {t}

WordFor(w) == Lex(w, StartOfText).tok

(* the tokens T of the statement with w in the place of the i-th *)
Instead(T, i, w) ==
  LET new == [ln |-> T[i].ln, cl |-> T[i].cl] @@ WordFor(w)
      end == [WordFor("") EXCEPT !.ln = T[i].ln + 9]
  IN SubSeq(T, 1, i - 1) \o <<new>> \o SubSeq(T, i + 1, Len(T)) \o <<end, end, end, end>>

FurtherThan(n, T, i, w, o, E) ==
  LET r == Statement(Instead(T, i, w), o, E) IN r.s \in {"ok", "any", "end"} \/ r.i > n

Further(T, i, w, o, E) == FurtherThan(i, T, i, w, o, E)

(* the same with other modifiers *)
FurtherWith(T, i, w, o, E) ==
  LET P == SelectSeq(SubSeq(T, 1, i - 1), LAMBDA x : ~(x.t = "id" /\ SubSeq(x.s, 1, 1) = "."))
      k == CHOOSE j \in 1..Len(P) : /\ P[j].t = "id" /\ (j = 1 \/ P[j - 1].t # "@")
                                    /\ \A n \in 1..(j - 1) : P[n].t = "id" => P[n - 1].t = "@"
      With(m) == [n \in 1..Len(m) |-> [ln |-> T[i].ln, cl |-> T[i].cl] @@ WordFor(m[n])]
  IN \E m \in {<<>>, <<".LZ">>, <<".LL">>, <<".R">>, <<".B">>, <<".LOD">>, <<".B", ".LOD">>, <<".B", ".R">>, <<".B", ".LZ">>} :
       LET Q == SubSeq(P, 1, k) \o With(m) \o SubSeq(P, k + 1, Len(P))
       IN Further(Q \o SubSeq(T, i, Len(T)), Len(Q) + 1, w, o, E)

Setting(tok, w) == tok.t = "id" /\ tok.s \in {w, "." \o w}

SignedValue(s) ==                      \* of a decimal number, as a token has it
  LET neg == SubSeq(s, 1, 1) = "-"
      m == Magnitude(IF neg THEN SubSeq(s, 2, Len(s)) ELSE s, 10)
  IN [neg |-> neg /\ m # {}, m |-> m]

TextOf(s, tok) == SubSeq(s, tok.p, tok.e - 1)

(* c is a claim about token i of the statement T that begins at some place of the text *)
TrueOf(c, s, T, i, o, E) ==
  LET tok == T[i]
      Do(w) == Further(T, i, w, o, E)
      HasGuard == \E j \in 1..(i - 1) : T[j].t = "@" /\ T[j + 1].t = "pred"
  IN CASE c.k = "quote" -> IF c.a[1] = "" THEN tok.t # "id" ELSE TextOf(s, tok) = c.a[1]
       [] c.k = "found" -> c.a[1] \in DOMAIN KindNames => tok.t = KindNames[c.a[1]]
       [] c.k = "wanted" -> (c.a[1] \in DOMAIN KindNames /\ ~(i > 1 /\ T[i - 1].t = "id" /\ T[i - 1].s = "DEP")) => \E w \in Examples(KindNames[c.a[1]]) : Do(w)
       [] c.k = "words" -> \A j \in 1..Len(c.a) : Do(c.a[j])
       [] c.k = "some" -> \E j \in 1..Len(c.a) : Do(c.a[j])
       [] c.k = "outside" -> \A j \in 1..Len(c.a) : ~Do(c.a[j])
       [] c.k = "types" -> \A j \in 1..Len(c.a) : Do(c.a[j]) \/ FurtherWith(T, i, c.a[j], o, E)
       [] c.k = "stands" -> \A j \in 1..Len(c.a) : \E n \in 1..i : Setting(T[n], c.a[j])
       [] c.k = "other" -> ~\E j \in 1..Len(c.a) : \E n \in 1..i : Setting(T[n], c.a[j])
       [] c.k = "far" -> tok.t = "int" \/ (tok.t = "id" /\ tok.s \in DOMAIN E.labels)
       [] c.k = "value" -> tok.t = "int" /\ [neg |-> tok.neg, m |-> tok.m] = SignedValue(c.a[1])
       [] c.k = "aligned" -> tok.t = "int" /\ \E b \in tok.m : b < SmallVal(c.a[1], 1, 10, 0)
       [] c.k = "cbuf" -> /\ tok.t = "id" /\ i + 5 <= Len(T) /\ T[i + 5].t = "int"
                          /\ \E b \in T[i + 5].m : b < SmallVal(c.a[1], 1, 10, 0)
                          /\ ~FurtherThan(i, T, i + 5, c.a[2], o, E) /\ FurtherThan(i, T, i + 5, c.a[3], o, E)
       [] c.k = "negated" -> tok.t = "pred" => tok.neg
       [] c.k = "mnemonic" -> tok.t = "id" /\ tok.s \notin Mnemonics
       [] c.k = "option" -> IsOption(tok) /\ tok.s \notin {".dksh", ".type", ".num_gprs", ".shared_memory", ".local_memory", ".workgroup_size"}
       [] c.k = "type" -> tok.t = "id" => tok.s \notin DOMAIN ProgramTypes
       [] c.k = "label" -> tok.t = "id" /\ (IF c.a[1] = "" THEN tok.s ELSE c.a[1]) \notin DOMAIN E.labels
       [] c.k = "guarded" -> HasGuard
       [] c.k = "before" -> \E j \in 2..(i - 1) : T[j - 1].t = "@" /\ T[j].t = "id" /\ T[j].s \in {c.a[n] : n \in 1..Len(c.a)}
       [] c.k = "line" -> \E j \in 1..(i - 1) : IsOption(T[j]) /\ T[j].ln # tok.ln
       [] OTHER -> TRUE

AllTrue(cs, s, T, i, o, E) == \A j \in 1..Len(cs) : TrueOf(cs[j], s, T, i, o, E)

(* claims about a text as a whole, with its labels *)
TrueOfAll(c, s, labels) ==
  CASE c.k = "nul" -> Until(s, 1, {Nul}) <= Len(s)
    [] c.k = "entry" -> c.a[1] \notin DOMAIN labels
    [] c.k = "bundle" -> Entry \in DOMAIN labels /\ labels[Entry] % 32 # 8
    [] OTHER -> c.k \notin {"quote", "found", "wanted", "value"}

AllTrueOfAll(cs, s, labels) == \A j \in 1..Len(cs) : TrueOfAll(cs[j], s, labels)

(* claims about a label, defined for the second time in the line at p *)
TrueOfLabel(c, s, p) ==
  CASE c.k = "twice" -> LineAt(s, p).label = c.a[1]
    [] OTHER -> FALSE
=============================================================================
