----------------------------- MODULE CliConform ------------------------------
(* Checks recorded runs of the tool against Cli: [args, code, said, disk].   *)
EXTENDS Cli, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES run, wrong
cvars == <<vars, run, wrong>>

CInit == /\ run \in 1..Len(Cases)
         /\ InitWith(Cases[run].args)
         /\ wrong = {}
CNext == /\ Next
         /\ run' = run
         /\ wrong' = IF stage' # "exit" THEN wrong
                     ELSE LET c == Cases[run]
                          IN   (IF c.code = code' THEN {} ELSE {"status"})
                          \cup (IF code' = 1 /\ ~c.said THEN {"silent"} ELSE {})
                          \cup (IF \A f \in DOMAIN c.disk : c.disk[f] = disk'[f] THEN {} ELSE {"files"})
CSpec == CInit /\ [][CNext]_cvars
CView == <<run, stage, args, wrong>>
StatusOk == "status" \notin wrong
SaidOk   == "silent" \notin wrong
FilesOk  == "files" \notin wrong
=============================================================================
