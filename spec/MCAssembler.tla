---------------------------- MODULE MCAssembler -----------------------------
(***************************************************************************)
(* The machine itself, on every text that can be made of a few pieces: it  *)
(* ends, each step gets further, nothing is counted twice, and the two     *)
(* passes agree.  SemicolonsCount is what the assembler's reservation of   *)
(* memory rests on: a text that is a program has as many statements as     *)
(* semicolons, and no other text gets past that number.                    *)
(***************************************************************************)
EXTENDS Assembler, IOUtils

Pieces == TLCEval(JsonDeserialize(IOEnv.PIECES))
CONSTANT MaxPieces

RECURSIVE Cat(_, _)
Cat(d, k) == IF k > Len(d) THEN "" ELSE Pieces[d[k]] \o Cat(d, k + 1)

Docs == UNION {[1..n -> 1..Len(Pieces)] : n \in 0..MaxPieces}
Init == \E d \in Docs : InitWith(Cat(d, 1))
Spec == Init /\ [][AsmNext]_vars /\ WF_vars(AsmNext)

RECURSIVE Count(_, _, _)
Count(s, c, p) == LET q == Until(s, p, {c}) IN IF q > Len(s) THEN 0 ELSE 1 + Count(s, c, q + 1)
Semicolons == Count(text, ";", 1)
Lines == 1 + Count(text, "\n", 1)

Final == {"done", "rejected", "any"}
Ends == <>(phase \in Final)
Stays == [][phase \notin Final]_vars
Further == [][/\ phase = "code" /\ phase' = "code" => cursor'.p > cursor.p /\ count' = count + 1
              /\ phase = "labels" /\ phase' = "labels" => cursor'.p > cursor.p]_vars
InText == /\ cursor.p \in 1..(Len(text) + 1)
          /\ cursor.ln < Lines
SemicolonsCount == /\ count <= Semicolons
                   /\ phase = "done" => count = Semicolons
LabelsAreCode == \A l \in DOMAIN labelTab : labelTab[l] \in {AddrOf(k) : k \in 0..Semicolons}
FaultIsThere == /\ fault.has => phase = "rejected" /\ fault.ln \in 1..Lines /\ fault.cl >= 1
                /\ phase \notin {"rejected"} => ~fault.has
OneStep == phase \in Final \/ ENABLED AsmNext
=============================================================================
