----------------------------- MODULE CliVectors ------------------------------
(* Writes out the argument vectors whose input is a file that can be read to *)
(* its end (reading the device does not end).                                *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, SequencesExt
MaxArgs == IF IOEnv.MAXARGS = "5" THEN 5 ELSE 4
args == 0  input == 0  output == 0  stage == 0  code == 0  disk == 0
M == INSTANCE Cli
RECURSIVE Input(_)
Input(v) == IF v = <<>> THEN ""
            ELSE IF Head(v) = "-o" THEN (IF Len(v) < 3 THEN "" ELSE Input(SubSeq(v, 3, Len(v))))
            ELSE Head(v)
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq({v \in M!Vectors : Input(v) # "full"}))
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
