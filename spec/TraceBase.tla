------------------------------ MODULE TraceBase ------------------------------
(* Checks recorded executions (NDJSON in the file $TRACE) against a            *)
(* specification.  Judge(st, e) says what is wrong with event e in the model   *)
(* state st ("" if nothing is) and what the model state is after it.  Several  *)
(* executions lie in one file, each begins at an event with first = TRUE.      *)
(* Each execution is one behaviour, consumed line by line; wrong lines are     *)
(* printed.  TLC visits exactly one state per line plus one per execution.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Judge(_, _), Start(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)
Starts == {i \in 1..TraceLen : Trace[i].first}
Verdict(bad, st) == [bad |-> bad, st |-> st]
NoState(e) == 0

VARIABLES b, l, st
Init == b \in Starts /\ l = b /\ st = Start(Trace[b])
Next ==
  /\ l <= TraceLen
  /\ l = b \/ ~Trace[l].first
  /\ LET r == Judge(st, Trace[l]) IN
       /\ r.bad # "" => PrintT("BAD " \o ToString(l) \o " " \o r.bad)
       /\ st' = r.st
  /\ l' = l + 1
  /\ UNCHANGED b
=============================================================================
