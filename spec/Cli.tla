-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line tool: nxas <input> -o <output>, in any order.          *)
(*                                                                         *)
(* Files are known by what they are:                                       *)
(*   prog, prog2  a program            bad      a text that is none        *)
(*   missing      no such file         dir      a folder                   *)
(*   new          no such file, in a folder that exists                    *)
(*   old          a file with content  nodir    in a folder that does not  *)
(*                (not a program)               exist                      *)
(*   full         a device that can't take any data                        *)
(*   dash         a program in a file whose name starts with a dash        *)
(* Only "-o" means something else than a file, and after "-o" it is one.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT MaxArgs

Files == {"prog", "prog2", "bad", "missing", "dir", "new", "old", "nodir", "full", "dash"}
Programs == {"prog", "prog2", "dash"}
Words == Files \cup {"-o"}

VARIABLES
  args,     \* the arguments that are left
  input, output,
  stage,    \* "args", "read", "assemble", "open", "write", "exit"
  code,     \* exit status, -1 while running
  disk      \* what became of each file: "same", "empty", or the input whose image it is

vars == <<args, input, output, stage, code, disk>>

Vectors == UNION {[1..k -> Words] : k \in 0..MaxArgs}

InitWith(v) ==
  /\ args = v
  /\ input = "" /\ output = ""
  /\ stage = "args"
  /\ code = -1
  /\ disk = [f \in Words |-> "same"]

Fail == /\ stage' = "exit" /\ code' = 1
        /\ UNCHANGED <<args, input, output, disk>>

Argument ==
  /\ stage = "args" /\ args # <<>>
  /\ IF Head(args) = "-o"
     THEN IF output # "" \/ Len(args) = 1 THEN Fail
          ELSE /\ output' = args[2]
               /\ args' = SubSeq(args, 3, Len(args))
               /\ UNCHANGED <<input, stage, code, disk>>
     ELSE IF input # "" THEN Fail
          ELSE /\ input' = Head(args)
               /\ args' = Tail(args)
               /\ UNCHANGED <<output, stage, code, disk>>

NoMoreArguments ==
  /\ stage = "args" /\ args = <<>>
  /\ IF input = "" \/ output = "" THEN Fail
     ELSE stage' = "read" /\ UNCHANGED <<args, input, output, code, disk>>

Go(s) == stage' = s /\ UNCHANGED <<args, input, output, code, disk>>

Read == /\ stage = "read"
        /\ IF input \in {"missing", "new", "dir", "nodir"} THEN Fail ELSE Go("assemble")

Assemble == /\ stage = "assemble"
            /\ IF input \in Programs THEN Go("open") ELSE Fail

Open == /\ stage = "open"
        /\ IF output \in {"dir", "nodir"} THEN Fail
           ELSE IF output = "full" THEN Go("write")
           ELSE /\ stage' = "write"
                /\ disk' = [disk EXCEPT ![output] = "empty"]
                /\ UNCHANGED <<args, input, output, code>>

Write == /\ stage = "write"
         /\ IF output = "full" THEN Fail
            ELSE /\ stage' = "exit" /\ code' = 0
                 /\ disk' = [disk EXCEPT ![output] = input]
                 /\ UNCHANGED <<args, input, output>>

Next == Argument \/ NoMoreArguments \/ Read \/ Assemble \/ Open \/ Write

Init == \E v \in Vectors : InitWith(v)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* What a user relies on.                                                  *)
(***************************************************************************)
SuccessMeansImage ==
  (stage = "exit" /\ code = 0) => /\ input \in Programs
                                  /\ disk[output] = input
                                  /\ \A f \in Words \ {output} : disk[f] = "same"
FailureKeepsFiles ==
  (stage = "exit" /\ code = 1) => \A f \in Words : disk[f] = "same"
StatusIsZeroOrOne == (stage = "exit") <=> (code \in {0, 1})
Ends == <>(stage = "exit")
=============================================================================
