------------------------------- MODULE Writer --------------------------------
(***************************************************************************)
(* Someone who writes a text, one piece after the other.  TLC enumerates   *)
(* everything they can have written and prints it; what it means is for    *)
(* Conform to say.  Pieces are numbers here, 1..Kinds.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Kinds, MaxPieces
VARIABLE doc
Init == doc = <<>>
Write == \E k \in 1..Kinds : Len(doc) < MaxPieces /\ doc' = Append(doc, k)
Spec == Init /\ [][Write]_doc

Show == PrintT("DOC " \o ToJson(doc))
==============================================================================
