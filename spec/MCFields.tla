------------------------------ MODULE MCFields -------------------------------
(***************************************************************************)
(* The instruction forms themselves: operands of a form never share a bit, *)
(* with each other, the fixed bits, or the guard; and a word belongs to    *)
(* one mnemonic only.  One state for each form, or pair of forms.          *)
(***************************************************************************)
EXTENDS Statement

(* every bit an operand can write *)
NamesSpan(f) == UNION {f[x] : x \in DOMAIN f}
RECURSIVE Span(_)
Span(d) ==
  CASE d.k \in {"comma", "zero", "opt", "texsmode", "mirror"} -> {}
    [] d.k = "gpr" -> d.a..(d.a + 7)
    [] d.k \in {"flag", "neg", "tilde"} -> {d.a}
    [] d.k = "dot" -> NamesSpan(d.f) \cup d.def
    [] d.k = "abs" -> {d.a} \cup Span(d.d)
    [] d.k = "cbuf" -> 20..33 \cup 34..38
    [] d.k \in {"imm20", "uext", "f20", "d20"} -> 20..38 \cup {56}
    [] d.k = "f32" -> 20..51
    [] d.k = "h9" -> d.a..(d.a + 8) \cup {d.n}
    [] d.k = "h16" -> d.a..(d.a + 15)
    [] d.k = "pred" -> d.a..(d.a + 2)
    [] d.k = "ipred" -> d.a..(d.a + 2)
    [] d.k = "predn" -> d.a..(d.a + 3)
    [] d.k \in {"uint", "sint"} -> d.a..(d.a + d.b - 1)
    [] d.k = "const" -> d.B
    [] d.k = "req" -> d.B
    [] d.k = "mem" -> 8..15 \cup (IF d.imm THEN d.a..(d.a + d.size - d.shr - 1) ELSE {})
    [] d.k = "ldcaddr" -> 36..40 \cup 8..15 \cup 20..35
    [] d.k = "po" -> {d.a, d.b}
    [] d.k = "label" -> 20..43
    [] d.k = "flow" -> 0..4
    [] d.k = "xsigns" -> {48, 49}
    [] d.k = "f2fround" -> NamesSpan(d.same) \cup NamesSpan(d.diff)
    [] d.k = "intfmt" -> NamesSpan(d.u) \cup NamesSpan(d.s) \cup {d.sa}
    [] d.k = "srcfmt" -> NamesSpan(d.u) \cup NamesSpan(d.s) \cup {d.sa} \cup d.def
    [] d.k \in {"seli", "selv"} -> NamesSpan(d.bytes) \cup NamesSpan(d.shorts)
    [] d.k = "s2r" -> 20..27
    [] d.k \in {"ldgsize", "atomsize"} -> NamesSpan(d.f) \cup d.def
    [] d.k = "attrimm" -> 8..15 \cup 20..29
    [] d.k = "attrpatch" -> 8..15 \cup 20..30
    [] d.k = "attrphys" -> 8..15
    [] d.k = "texstype" -> 53..56
    [] d.k = "tldstype" -> d.a..(d.a + 3)
    [] d.k = "swizzle" -> NamesSpan(d.one) \cup NamesSpan(d.two)

Guard == 16..19

(* an operand that looks before it writes: -R1 after .PO, or .NEG after a  *)
(* negative immediate, is an error                                         *)
Careful(d) == d.k \in {"flag", "neg"}

SharedBits(form) ==
  {<<i, j>> \in (1..Len(form.ops)) \X (1..Len(form.ops)) :
     i < j /\ Span(form.ops[i]) \cap Span(form.ops[j]) # {} /\ ~Careful(form.ops[j])}

(* TLDS: the modifiers become part of the code of the type *)
Recoded(form, p) == form.ops[p[2]].k = "tldstype"

(* the video selectors use a free code of the format before them: all the  *)
(* combinations of a format and a selector are still different             *)
Combined(fmt, sel) ==
  LET named(h, sg) == {[n |-> x, B |-> h[x] \cup sg] : x \in DOMAIN h}
      formats == named(fmt.u, {}) \cup named(fmt.s, {fmt.sa})
      selects(B) == LET n == Field(B, sel.ta, 2)
                    IN IF n = 3 THEN {{}} ELSE IF n = 2 THEN {sel.shorts[x] : x \in DOMAIN sel.shorts}
                                            ELSE {sel.bytes[x] : x \in DOMAIN sel.bytes}
  IN UNION {{[n |-> f.n, sel |-> S, B |-> f.B \cup S] : S \in selects(f.B)} : f \in formats}
Video(form, p) ==
  LET f == form.ops[p[1]]
      g == form.ops[p[2]]
  IN /\ f.k = "srcfmt" /\ g.k = "selv"
     /\ \A x, y \in Combined(f, g) : x.B = y.B => x = y

VARIABLES left, right
Init == left \in 1..Len(Table) /\ right = 0
Next == right < left /\ right' = right + 1 /\ left' = left

Disjoint == LET f == Table[left] IN \A p \in SharedBits(f) : Recoded(f, p) \/ Video(f, p)
FreeOfFixed ==
  LET f == Table[left]
  IN /\ \A i \in 1..Len(f.ops) :
          /\ Span(f.ops[i]) \cap Guard = {}
          /\ Span(f.ops[i]) \cap f.base # {} => Careful(f.ops[i])
          /\ Span(f.ops[i]) \subseteq 0..63
     /\ f.base \cap Guard = {}

(* two mnemonics differ in a bit that neither can write *)
Written(f) == UNION {Span(f.ops[i]) : i \in 1..Len(f.ops)} \cup Guard
Distinct(f, g) == \/ (f.base \ g.base) \ Written(g) # {}
                  \/ (g.base \ f.base) \ Written(f) # {}
Stop == right = 0
Unambiguous ==
  right # 0 /\ Table[left].m # Table[right].m => Distinct(Table[left], Table[right])
=============================================================================
