-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Many calls in one process, one after the other or at the same time.     *)
(* Assembling is a function: whatever was called before or is being called *)
(* by others, a text gives the image that it gives to a process of its     *)
(* own, and that one is checked by Conform.                                *)
(*                                                                         *)
(* A case is what one thread did: its calls, each a text and a result.     *)
(* Results are numbered by the harness, equal numbers for equal images.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.ALONE)      \* text -> its result when alone
Cases == ndJsonDeserialize(IOEnv.CASES)    \* thread -> [calls |-> <<text, result>>...]

VARIABLES who, nth, same
Init == who \in 1..Len(Cases) /\ nth = 0 /\ same = TRUE
Call == /\ nth < Len(Cases[who].calls)
        /\ nth' = nth + 1 /\ who' = who
        /\ LET c == Cases[who].calls[nth + 1] IN same' = (Given[c[1]] = c[2])
Spec == Init /\ [][Call]_<<who, nth, same>>
Pure == same
==============================================================================
