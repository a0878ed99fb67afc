------------------------------- MODULE Effort -------------------------------
(* Time and memory proportionate to the text. A case is a text made longer and *)
(* longer, each time twice as long as before; each step of a behaviour reads   *)
(* what one of them took: instructions executed, and the most memory held at a *)
(* time. Twice the text may take twice the effort, and some (Slack, for what   *)
(* is done once, and rounding); three times stands for a logarithm or a table  *)
(* that grows, four times would be a square.                                   *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.CASES))

SlackWork == 1500    \* thousands of instructions
SlackSpace == 256    \* KiB

VARIABLES run, at, ended, work, space
vars == <<run, at, ended, work, space>>

Init == /\ run \in 1..Len(Cases)
        /\ at = 0 /\ ended = TRUE /\ work = <<>> /\ space = <<>>

Measure == /\ at < Len(Cases[run].m)
           /\ at' = at + 1
           /\ LET m == Cases[run].m[at + 1]
              IN /\ ended' = m.ended
                 /\ work' = Append(work, m.work)
                 /\ space' = Append(space, m.space)
           /\ UNCHANGED run

Next == Measure
Spec == Init /\ [][Next]_vars

Grows(s, slack) ==
    Len(s) >= 3 => LET n == Len(s)
                       before == IF s[n - 1] > s[n - 2] THEN s[n - 1] - s[n - 2] ELSE 0
                   IN s[n] - s[n - 1] <= 3 * before + slack

EndsOk == ended
WorkOk == Grows(work, SlackWork)
SpaceOk == Grows(space, SlackSpace)
=============================================================================
