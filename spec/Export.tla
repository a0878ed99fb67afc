------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* Writes the instruction forms out, for the input generators to read: the *)
(* shapes only, what the operands mean stays here.                         *)
(***************************************************************************)
EXTENDS IsaTable, Json, IOUtils

RECURSIVE Shape(_)
Names(x) == IF "names" \in DOMAIN x THEN x.names ELSE <<>>
Get(x, f, default) == IF f \in DOMAIN x THEN x[f] ELSE default
Shape(d) ==
  [k |-> d.k, a |-> Get(d, "a", -1), names |-> Names(d)]
    @@ (CASE d.k \in {"uint", "sint"} -> [b |-> d.b]
          [] d.k \in {"flag", "req", "opt"} -> [s |-> d.s]
          [] d.k = "dot" -> [req |-> d.req]
          [] d.k = "abs" -> [d |-> Shape(d.d)]
          [] d.k = "mem" -> [imm |-> d.imm, size |-> d.size, shr |-> d.shr]
          [] d.k = "intfmt" -> [u |-> d.U, v |-> d.S]
          [] OTHER -> [none |-> 0])

Forms == [i \in 1..Len(Table) |->
            [m |-> Table[i].m, guard |-> Table[i].guard,
             ops |-> [j \in 1..Len(Table[i].ops) |-> Shape(Table[i].ops[j])]]]

ASSUME JsonSerialize(IOEnv.OUT, [forms |-> Forms, tests |-> CCTests, tex |-> TexTypes])

VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
