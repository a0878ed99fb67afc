------------------------------- MODULE MCSched -------------------------------
(***************************************************************************)
(* All scheduling annotations an instruction can have: what is written in  *)
(* the 21 bits of its slot can be read back, whatever the combination, and *)
(* the three slots of a bundle do not touch each other.                    *)
(***************************************************************************)
EXTENDS Statement, Layout

CONSTANTS Waits, Barriers, Deps
VARIABLES ann, cached
mvars == <<ann, cached>>

Init == ann = NoSched /\ cached = {}

Wait  == \E n \in Waits : ann.stall = -1 /\ ann' = [ann EXCEPT !.stall = n]
Yield == ~ann.yield /\ ann' = [ann EXCEPT !.yield = TRUE]
Wb    == \E n \in Barriers : ann.wb = -1 /\ ann' = [ann EXCEPT !.wb = n]
Rb    == \E n \in Barriers : ann.rb = -1 /\ ann' = [ann EXCEPT !.rb = n]
Dep   == \E n \in Deps : n \notin ann.dep /\ ann' = [ann EXCEPT !.dep = @ \cup {n}]
Reuse == \E a \in {8, 20, 39} : a \notin cached /\ cached' = cached \cup {a} /\ ann' = ann
Next  == \/ (Wait \/ Yield \/ Wb \/ Rb \/ Dep) /\ cached' = cached
         \/ Reuse
Spec  == Init /\ [][Next]_mvars

Unbar(n) == IF n = 7 THEN -1 ELSE n
ReadBack(B) ==
  [c |-> [stall |-> Field(B, 0, 4), yield |-> 4 \in B, wb |-> Unbar(Field(B, 5, 3)),
          rb |-> Unbar(Field(B, 8, 3)), dep |-> Shift(B \cap 11..16, -11)],
   r |-> {a \in {8, 20, 39} : (CASE a = 8 -> 17 [] a = 20 -> 18 [] OTHER -> 19) \in B}]

Slot == SchedBits(ann, cached)
InSlot == Slot \subseteq 0..19
Faithful == LET b == ReadBack(Slot)
            IN /\ b.r = cached
               /\ b.c = [ann EXCEPT !.stall = IF @ = -1 THEN 0 ELSE @]
(* a bundle: this slot at each of the three places, others around it *)
Apart == \A k \in 1..3 :
  LET slots == [j \in 1..3 |-> IF j = k THEN Slot ELSE EmptySlot]
      w == ControlWord(slots, EmptySlot)
  IN \A j \in 1..3 : Shift({b \in w : b \in (21 * (j - 1))..(21 * j - 1)}, -(21 * (j - 1))) = slots[j]
==============================================================================
