------------------------------ MODULE MCOverlay ------------------------------
(* All reachable states of a stack of layers; also the source of the           *)
(* behaviours replayed on the code (one line per transition).                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NKeys, NLayers, Vals
O == INSTANCE Overlay WITH None <- "-", NoDiff <- "."
Keys == 1..NKeys
VARIABLES ls, op
vars == <<ls, op>>
Init == ls = [i \in 1..NLayers |-> [k \in Keys |-> IF i = 1 THEN "-" ELSE "."]] /\ op = <<"init", 0>>
DoWrite(i, k, v) == ls' = O!Write(ls, i, k, v) /\ op' = <<"w", i, k, v>>
DoFlush(i) == ls' = O!Flush(ls, i) /\ op' = <<"f", i>>
DoFlushOne(i, k) == ls' = O!FlushOne(ls, i, k) /\ op' = <<"p", i>>
CONSTANT Partial
Next == \/ \E i \in 1..NLayers, k \in Keys, v \in Vals \cup {"-"} : DoWrite(i, k, v)
        \/ \E i \in 2..NLayers : DoFlush(i)
        \/ Partial /\ \E i \in 2..NLayers, k \in Keys : DoFlushOne(i, k)
Spec == Init /\ [][Next]_vars

(* C15 *)
Isolated == [][op'[1] = "w" =>
     /\ \A j \in 1..(op'[2] - 1) : O!View(ls', j) = O!View(ls, j)
     /\ O!View(ls', op'[2]) = [O!View(ls, op'[2]) EXCEPT ![op'[3]] = op'[4]]]_vars
FlushMoves == [][op'[1] = "f" =>
     /\ O!View(ls', op'[2] - 1) = O!View(ls, op'[2]) /\ O!Clean(ls', op'[2])
     /\ \A j \in 1..NLayers : j # op'[2] - 1 => O!View(ls', j) = O!View(ls, j)]_vars
(* C38: a flush that was interrupted shows nothing new above, and completes *)
PartialHides == [][op'[1] = "p" =>
     /\ \A j \in (op'[2])..NLayers : O!View(ls', j) = O!View(ls, j)
     /\ O!Flush(ls', op'[2]) = O!Flush(ls, op'[2])]_vars
(* a layer without differences shows the one below *)
CleanShows == \A i \in 2..NLayers : O!Clean(ls, i) => O!View(ls, i) = O!View(ls, i - 1)
View_ == ls

RECURSIVE Text(_, _, _)
Text(s, i, k) == IF i > NLayers THEN "" ELSE IF k > NKeys THEN Text(s, i + 1, 1) ELSE s[i][k] \o Text(s, i, k + 1)
OpText(o) == IF o[1] = "f" THEN "f" \o ToString(o[2]) ELSE "w" \o ToString(o[2]) \o ToString(o[3]) \o o[4]
(* prints every transition *)
Edges == PrintT("OUT " \o Text(ls, 1, 1) \o " " \o OpText(op') \o " " \o Text(ls', 1, 1))
=============================================================================
