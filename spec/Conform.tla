------------------------------ MODULE Conform -------------------------------
(***************************************************************************)
(* Checks runs of the real assembler against the specification.  Every     *)
(* recorded run is a text and what came of it; the specification reads the *)
(* same text, and each instruction it emits is compared with the recorded  *)
(* image at the place where it has to be.  wrong collects what differs:    *)
(*   "insn"  an instruction word        "slot"  a control word             *)
(*   "pad"   padding                    "size"  the size of the image      *)
(*   "head"  the container header       "accept" rejected a program        *)
(*   "reject" accepted what is none     "loc"   where the error is         *)
(*   "claim" what the diagnostic says about the text is not so             *)
(*   "crash" neither an image nor a reported error                         *)
(***************************************************************************)
EXTENDS Claims, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES run, origin, pending, wrong
cvars == <<vars, run, origin, pending, wrong>>

Obs == Cases[run]
ObsOk == Obs.st = "ok"

(* a container is recognised by its magic, no control word has bit 20 set *)
IsContainer(o) == /\ o.st = "ok"
                  /\ Len(o.w) >= HeaderWords
                  /\ SubSeq(o.w[1], 9, 16) = "48534B44"

Init == /\ run \in 1..Len(Cases)
        /\ InitWith(Cases[run].src)
        /\ origin = IF IsContainer(Cases[run]) THEN HeaderWords ELSE 0
        /\ pending = <<>>
        /\ wrong = IF Cases[run].st \in {"ok", "err"} THEN {} ELSE {"crash"}

(* the recorded word at a position of the code *)
Recorded(k) == IF origin + k < Len(Obs.w) THEN Obs.w[origin + k + 1] ELSE "none"
Differs(k, bits, kind) == IF Recorded(k) = ToHex(bits) THEN {} ELSE {kind}

(* what was said about the text that is rejected in this step *)
Said(reading) ==
  IF Obs.claims = <<>> THEN {}
  ELSE IF ~fault'.has THEN IF AllTrueOfAll(Obs.claims, text, labelTab) THEN {} ELSE {"claim"}
  ELSE IF reading
  THEN LET l == LexStatement(text, cursor, <<>>)
           e == [pc |-> AddrOf(count), labels |-> labelTab]
           r == Statement(l.toks, settings, e)
       IN IF AllTrue(Obs.claims, text, l.toks, r.i, settings, e) THEN {} ELSE {"claim"}
  ELSE LET r == ScanLines(text, cursor.p, cursor.ln, count, labelTab, 40)
       IN IF \A j \in 1..Len(Obs.claims) : TrueOfLabel(Obs.claims[j], text, r.p) THEN {} ELSE {"claim"}

Read ==
  /\ ReadStatement
  /\ UNCHANGED <<run, origin>>
  /\ IF ~ObsOk
     THEN /\ pending' = <<>>
          /\ wrong' = wrong \cup
               (CASE phase' = "done" -> {"accept"}
                  [] phase' = "rejected" /\ Obs.st = "err" ->
                       IF /\ Obs.has = fault'.has
                          /\ fault'.has => Obs.ln = fault'.ln /\ Obs.cl = fault'.cl
                       THEN Said(TRUE) ELSE {"loc"}
                  [] OTHER -> {})
     ELSE IF count' = count + 1
     THEN LET all == Append(pending, emitted'.slot)
          IN /\ pending' = IF Len(all) = 3 THEN <<>> ELSE all
             /\ wrong' = wrong
                  \cup Differs(WordOf(count), emitted'.w, "insn")
                  \cup (IF Len(all) = 3 THEN Differs(ControlOf(count), ControlWord(all, EmptySlot), "slot") ELSE {})
     ELSE /\ pending' = <<>>
          /\ wrong' = wrong \cup
               (CASE phase' = "rejected" -> {"reject"}
                  [] phase' = "done" ->
                       LET code == CodeWords(count)
                       IN   (IF pending # <<>> THEN Differs(ControlOf(count), ControlWord(pending, EmptySlot), "slot") ELSE {})
                       \cup (IF count % 3 = 0 THEN {} ELSE UNION {Differs(WordOf(k), PaddingNop, "pad") : k \in count..(3 * ((count + 2) \div 3) - 1)})
                       \cup (IF Len(Obs.w) = ImageWords THEN {} ELSE {"size"})
                       \cup (IF origin = CodeStart THEN {} ELSE {"head"})
                       \cup (IF ~settings.dksh THEN {}
                             ELSE (IF \A j \in 0..(HeaderWords - 1) :
                                        j < Len(Obs.w) /\ Obs.w[j + 1] = ToHex(HeaderWord(settings, labelTab[Entry], code, j))
                                   THEN {} ELSE {"head"})
                             \cup (IF \A k \in code..(Len(Obs.w) - origin - 1) : Recorded(k) = ToHex({})
                                   THEN {} ELSE {"pad"}))
                  [] OTHER -> {})

(* null characters and second definitions of a label are found first *)
Scan ==
  /\ phase = "labels"
  /\ RefuseNul \/ FindLabels
  /\ UNCHANGED <<run, origin, pending>>
  /\ wrong' = IF phase' # "rejected" THEN wrong
              ELSE wrong \cup (CASE ObsOk -> {"reject"}
                                 [] Obs.st = "err" ->
                                      IF /\ Obs.has = fault'.has
                                         /\ fault'.has => Obs.ln = fault'.ln /\ Obs.cl = fault'.cl
                                      THEN Said(FALSE) ELSE {"loc"}
                                 [] OTHER -> {})

Next == Scan \/ Read

Spec == Init /\ [][Next]_cvars

(* only whether the run ended as a run may end, for texts of any size *)
Ending == Init /\ [][FALSE]_cvars

(* the texts are not part of the view: run stands for them *)
View == <<run, phase, cursor, count, wrong>>

(***************************************************************************)
(* One invariant for each kind of difference.                              *)
(***************************************************************************)
InsnOk   == "insn" \notin wrong
SlotOk   == "slot" \notin wrong
PadOk    == "pad" \notin wrong
SizeOk   == "size" \notin wrong
HeadOk   == "head" \notin wrong
AcceptOk == "accept" \notin wrong
RejectOk == "reject" \notin wrong
LocOk    == "loc" \notin wrong
ClaimOk  == "claim" \notin wrong
CrashOk  == "crash" \notin wrong
=============================================================================
