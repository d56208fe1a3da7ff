---------------------------- MODULE SequencerGen ----------------------------
(* All short histories of inserting, rephrasing, exchanging and removing      *)
(* micro rhythms, adding channels and running for a while.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxOps
VARIABLE ops
Kinds == {"apply", "reset", "phrasing", "channel", "short", "long"}
Running(o) == o \in {"short", "long"}
GInit == ops = <<>>
GNext == /\ Len(ops) < MaxOps
         /\ \E o \in Kinds :
               /\ (Len(ops) > 0 /\ Running(o)) => ~Running(ops[Len(ops)])
               /\ o = "phrasing" => \E i \in DOMAIN ops : ops[i] = "apply" /\ \A j \in i..Len(ops) : ops[j] # "reset"
               /\ o = "reset" => \E i \in DOMAIN ops : ops[i] = "apply"
               /\ ops' = Append(ops, o)
GSpec == GInit /\ [][GNext]_ops
Emit == PrintT("SCN " \o ToJson([ops |-> ops']))
=============================================================================
