------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* Conformance for programs too long to read one statement at a time.  A   *)
(* program is a sequence of blocks: an optional label, and a statement     *)
(* that is repeated (once, if options stand before it).                    *)
(* The image is recorded as the runs of equal                              *)
(* instruction words (iw) and of equal control words (cw).  In a container *)
(* (dksh) the control section is recorded on its own (head), and the zeros *)
(* after the code are runs as well.                                        *)
(***************************************************************************)
EXTENDS Statement, Container, SequencesExt, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES run, blk, count, left, iat, cat, pending, phase, wrong, opts
bvars == <<run, blk, count, left, iat, cat, pending, phase, wrong, opts>>

Case == Cases[run]

(* the first instruction of each block *)
StartsOf(bs) == FoldLeft(LAMBDA acc, b : Append(acc, acc[Len(acc)] + b.reps), <<0>>, bs)
LabelsOf(bs) ==
  LET starts == StartsOf(bs)
      named == {b \in 1..Len(bs) : bs[b].lab # ""}
  IN TLCEval([l \in {bs[b].lab : b \in named} |-> AddrOf(starts[CHOOSE b \in named : bs[b].lab = l])])
(* the line of its first statement; an option takes a line (extra: those before the statement), *)
(* and so do a label and each copy of a statement                                              *)
LinesOf(c) ==
  FoldLeft(LAMBDA acc, b : [at |-> Append(acc.at, acc.n + (IF b.lab = "" THEN 0 ELSE 1)),
                            n |-> acc.n + b.extra + b.reps + (IF b.lab = "" THEN 0 ELSE 1)],
           [at |-> <<>>, n |-> IF c.header THEN 5 ELSE 0], c.blocks).at
LineTables == TLCEval([c \in 1..Len(Cases) |-> LinesOf(Cases[c])])
LabelTables == TLCEval([c \in 1..Len(Cases) |-> LabelsOf(Cases[c].blocks)])

Start == <<1, 0>>                      \* run, copies of it used

(* n copies of the word w are next: they lie in one run *)
Has(runs, at2, w, n) == /\ at2[1] <= Len(runs)
                        /\ runs[at2[1]].w = w
                        /\ at2[2] + n <= runs[at2[1]].n
After(runs, at2, n) == IF at2[2] + n = runs[at2[1]].n THEN <<at2[1] + 1, 0>> ELSE <<at2[1], at2[2] + n>>
AtEnd(runs, at2) == at2 = <<Len(runs) + 1, 0>>

Init == /\ run \in 1..Len(Cases)
        /\ blk = 1 /\ count = 0 /\ left = 0
        /\ iat = Start /\ cat = Start
        /\ pending = <<>>
        /\ phase = "code"
        /\ wrong = {}
        /\ opts = IF Case.header
                  THEN [NoOptions EXCEPT !.dksh = TRUE, !.type = "compute", !.gprs = Case.o.gprs, !.wg = Case.o.wg,
                                         !.shared = Case.o.shared, !.local = Case.o.local]
                  ELSE NoOptions

(* control words of what is pending and n more slots s: <<word, copies>>.. *)
Bundles(p, s, n) ==
  LET fill == IF p = <<>> THEN 0 ELSE 3 - Len(p)
      first == IF p # <<>> /\ n >= fill
               THEN << <<ControlWord(p \o [i \in 1..fill |-> s], EmptySlot), 1>> >> ELSE <<>>
      rest == IF p = <<>> THEN n ELSE IF n >= fill THEN n - fill ELSE 0
      middle == IF rest \div 3 > 0 THEN << <<ControlWord(<<s, s, s>>, EmptySlot), rest \div 3>> >> ELSE <<>>
      after == IF p # <<>> /\ n < fill THEN p \o [i \in 1..n |-> s]
               ELSE [i \in 1..(rest % 3) |-> s]
  IN [full |-> first \o middle, pending |-> after]

RECURSIVE Take(_, _, _, _)
Take(runs, at2, ws, k) ==              \* <<position, all there>>
  IF k > Len(ws) THEN <<at2, TRUE>>
  ELSE IF Has(runs, at2, ToHex(ws[k][1]), ws[k][2])
       THEN Take(runs, After(runs, at2, ws[k][2]), ws, k + 1)
       ELSE <<at2, FALSE>>

Block ==
  /\ phase = "code" /\ blk <= Len(Case.blocks)
  /\ LET b == Case.blocks[blk]
         toks == LexStatement(b.stmt \o ";", StartOfText, <<>>).toks
         r == Statement(toks, opts, [pc |-> AddrOf(count), labels |-> LabelTables[run]])
     IN IF r.s # "ok"
        THEN /\ phase' = IF r.s = "any" THEN "any" ELSE "rejected"
             /\ wrong' = CASE r.s = "any" -> wrong
                          [] Case.st = "ok" -> {"reject"}
                          [] Case.st = "err" -> IF /\ Case.has
                                                   /\ Case.ln = LineTables[run][blk] + toks[r.i].ln + 1
                                                   /\ Case.cl = toks[r.i].cl + 1
                                                THEN {} ELSE {"loc"}
                          [] OTHER -> {}
             /\ UNCHANGED <<count, iat, cat, pending, opts>>
        ELSE LET c == Bundles(pending, r.slot, b.reps)
                 is == Take(Case.iw, iat, << <<r.w, b.reps>> >>, 1)
                 cs == Take(Case.cw, cat, c.full, 1)
             IN /\ phase' = phase
                /\ opts' = r.o
                /\ count' = count + b.reps
                /\ pending' = c.pending
                /\ iat' = is[1] /\ cat' = cs[1]
                /\ wrong' = IF Case.st # "ok" THEN {}
                            ELSE wrong \cup (IF is[2] THEN {} ELSE {"insn"}) \cup (IF cs[2] THEN {} ELSE {"slot"})
  /\ blk' = blk + 1
  /\ UNCHANGED <<run, left>>

Finish ==
  /\ phase = "code" /\ blk > Len(Case.blocks)
  /\ phase' = "done"
  /\ LET fill == (3 - (count % 3)) % 3
         is == IF fill = 0 THEN <<iat, TRUE>> ELSE Take(Case.iw, iat, << <<PaddingNop, fill>> >>, 1)
         cs == IF pending = <<>> THEN <<cat, TRUE>>
               ELSE Take(Case.cw, cat, << <<ControlWord(pending, EmptySlot), 1>> >>, 1)
         code == CodeWords(count)
         zeros == IF Case.dksh THEN (ContainerCode(code) - code) \div 4 ELSE 0
         iz == IF zeros = 0 THEN is ELSE Take(Case.iw, is[1], << <<{}, 3 * zeros>> >>, 1)
         cz == IF zeros = 0 THEN cs ELSE Take(Case.cw, cs[1], << <<{}, zeros>> >>, 1)
         labels == LabelTables[run]
         noEntry == IF "main" \in DOMAIN labels THEN labels["main"] % 32 # 8 ELSE TRUE
     IN IF (opts.dksh /\ noEntry) \/ opts.type \notin {"", "compute"}
        THEN wrong' = IF Case.st = "ok" THEN {"reject"} ELSE {}
        ELSE wrong' = IF Case.st # "ok" THEN {"accept"}
                 ELSE IF opts.dksh # Case.dksh THEN {"size"}
                 ELSE wrong \cup (IF is[2] THEN {} ELSE {"pad"}) \cup (IF cs[2] THEN {} ELSE {"slot"})
                        \cup (IF /\ iz[2] /\ cz[2] /\ AtEnd(Case.iw, iz[1]) /\ AtEnd(Case.cw, cz[1])
                                 /\ Case.total = code + 4 * zeros THEN {} ELSE {"size"})
                        \cup (IF ~Case.dksh \/ \A j \in 0..(HeaderWords - 1) :
                                    Case.head[j + 1] = ToHex(HeaderWord(opts, labels["main"], code, j))
                              THEN {} ELSE {"head"})
  /\ UNCHANGED <<run, blk, count, left, iat, cat, pending, opts>>

Next == Block \/ Finish
Spec == Init /\ [][Next]_bvars
View == <<run, blk, phase, wrong>>

InsnOk   == "insn" \notin wrong
SlotOk   == "slot" \notin wrong
HeadOk   == "head" \notin wrong
PadOk    == "pad" \notin wrong
SizeOk   == "size" \notin wrong
AcceptOk == "accept" \notin wrong
RejectOk == "reject" \notin wrong
LocOk    == "loc" \notin wrong
=============================================================================
