----------------------------- MODULE Assembler ------------------------------
(***************************************************************************)
(* The assembler as a state machine over one source text.  A first pass    *)
(* finds the labels; then each step reads one statement and emits one      *)
(* instruction; a last step lays out the image.                            *)
(***************************************************************************)
EXTENDS Statement, Container, Json

VARIABLES
  text,     \* the text
  phase,    \* "labels", "code", then "done", "rejected", or "any" (left open)
  cursor,   \* position in the text
  count,    \* first pass: semicolons so far; second: instructions so far
  labelTab, \* label -> address
  settings, \* options so far
  emitted,  \* the last instruction: [w, slot]
  fault     \* where a rejected text is wrong: [has, ln, cl], from 1

vars == <<text, phase, cursor, count, labelTab, settings, emitted, fault>>

NoLabels  == [x \in {} |-> 0]
NoLoc     == [has |-> FALSE, ln |-> 0, cl |-> 0]
Nothing   == [w |-> {}, slot |-> {}]

InitWith(source) ==
  /\ text = source
  /\ phase = "labels"
  /\ cursor = StartOfText
  /\ count = 0
  /\ labelTab = NoLabels
  /\ settings = NoOptions
  /\ emitted = Nothing
  /\ fault = NoLoc

(* up to k lines at once, so that short texts take one step *)
RECURSIVE ScanLines(_, _, _, _, _, _)
ScanLines(s, p, ln, semis, tab, k) ==     \* [p, ln, n, labels, dup]
  IF k = 0 \/ p > Len(s) THEN [p |-> p, ln |-> ln, n |-> semis, labels |-> tab, dup |-> FALSE]
  ELSE LET l == LineAt(s, p)
       IN IF l.label # "" /\ l.label \in DOMAIN tab
          THEN [p |-> p, ln |-> ln, n |-> semis, labels |-> tab, dup |-> TRUE]
          ELSE ScanLines(s, l.next, ln + l.lines, semis + l.semis,
                         IF l.label # "" THEN tab @@ (l.label :> AddrOf(semis)) ELSE tab, k - 1)

(* a null character is not part of any text *)
Nul == JsonDeserialize("chars.json").nul
RefuseNul ==
  /\ phase = "labels" /\ cursor = StartOfText
  /\ Until(text, 1, {Nul}) <= Len(text)
  /\ phase' = "rejected"
  /\ UNCHANGED <<text, cursor, count, labelTab, settings, emitted, fault>>

FindLabels ==
  /\ phase = "labels"
  /\ cursor = StartOfText => Until(text, 1, {Nul}) > Len(text)
  /\ LET r == ScanLines(text, cursor.p, cursor.ln, count, labelTab, 40)
     IN /\ labelTab' = r.labels
        /\ IF r.dup
           THEN /\ phase' = "rejected"
                /\ fault' = [has |-> TRUE, ln |-> r.ln + 1, cl |-> 1]
                /\ UNCHANGED <<cursor, count>>
           ELSE /\ fault' = fault
                /\ IF r.p > Len(text)
                   THEN phase' = "code" /\ cursor' = StartOfText /\ count' = 0
                   ELSE phase' = phase /\ cursor' = [p |-> r.p, ln |-> r.ln, cl |-> 0] /\ count' = r.n
  /\ UNCHANGED <<text, settings, emitted>>

(* The end of the text: what is left to reject. Only compute shaders have  *)
(* an image; a container needs its entry point at the start of a bundle.   *)
Entry == "main"
Complete == /\ settings.type \in {"", "compute"}
            /\ settings.dksh => /\ Entry \in DOMAIN labelTab
                            /\ labelTab[Entry] % 32 = 8

ReadStatement ==
  /\ phase = "code"
  /\ LET l == LexStatement(text, cursor, <<>>)
         r == Statement(l.toks, settings, [pc |-> AddrOf(count), labels |-> labelTab])
     IN CASE r.s = "ok" ->
               /\ emitted' = [w |-> r.w, slot |-> r.slot]
               /\ settings' = r.o
               /\ count' = count + 1
               /\ cursor' = l.at
               /\ UNCHANGED <<phase, fault>>
          [] r.s = "end" ->
               /\ phase' = IF Complete THEN "done" ELSE "rejected"
               /\ UNCHANGED <<emitted, settings, count, cursor, fault>>
          [] r.s = "err" ->
               /\ phase' = "rejected"
               /\ fault' = [has |-> TRUE, ln |-> l.toks[r.i].ln + 1, cl |-> l.toks[r.i].cl + 1]
               /\ UNCHANGED <<emitted, settings, count, cursor>>
          [] OTHER ->                      \* "any"; "clash" is excluded by NoClash
               /\ phase' = r.s
               /\ UNCHANGED <<emitted, settings, count, cursor, fault>>
  /\ UNCHANGED <<text, labelTab>>

AsmNext == RefuseNul \/ FindLabels \/ ReadStatement

NoClash == phase # "clash"

(***************************************************************************)
(* The image of a text that is done, by position (from 0).                 *)
(***************************************************************************)
ImageWords == IF settings.dksh THEN HeaderWords + ContainerCode(CodeWords(count)) ELSE CodeWords(count)
CodeStart  == IF settings.dksh THEN HeaderWords ELSE 0
=============================================================================
