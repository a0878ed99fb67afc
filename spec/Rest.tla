-------------------------------- MODULE Rest --------------------------------
(* Nothing of a call stays behind. A case is a set of programs, all of them     *)
(* assembled in one process, again and again; a step reads what is in use after *)
(* another round: bytes of memory, and open files. The first rounds may fill    *)
(* tables that are made once; after them what is in use can't grow each time.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.CASES))

Settled == 2                \* rounds
VARIABLES run, at, used     \* used: what was in use after each round so far
vars == <<run, at, used>>

Init == /\ run \in 1..Len(Cases)
        /\ at = 0 /\ used = <<>>

Round == /\ at < Len(Cases[run].m)
         /\ at' = at + 1
         /\ used' = Append(used, Cases[run].m[at + 1])
         /\ UNCHANGED run

Spec == Init /\ [][Round]_vars

Done == at = Len(Cases[run].m)
Grew(which) == \A n \in (Settled + 1)..Len(used) : used[n][which] > used[n - 1][which]

EndsOk == Cases[run].ended
MemoryOk == (Done /\ at > Settled) => ~Grew("memory")
FilesOk == (Done /\ at > Settled) => ~Grew("files")
=============================================================================
