------------------------------ MODULE MCExport ------------------------------
(* Exports of small ranges from a server that answers each batch in any order, *)
(* leaves answers out or repeats them, refuses blocks and fails.  An export    *)
(* that is done holds exactly the blocks asked for, in order; what is written  *)
(* is at any time the beginning of that; an export of a server that has and    *)
(* answers all of it gets done.                                                *)
EXTENDS Export, TLC
CONSTANTS Max, MaxBatch, Sorted, Whole

Have == [n \in 1..Max |-> 10 * n]
Questions == [from : 1..Max, to : 0..Max, batch : 1..MaxBatch]
VARIABLES x, faulty
vars == <<x, faulty>>
(* replies: any order, perhaps one missing, refused or twice *)
Orders(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j}
Good(S) == {[i \in DOMAIN f |-> [n |-> f[i], ok |-> TRUE, b |-> Have[f[i]]]] : f \in Orders(S)}
Bad(S) == {Tail(r) : r \in Good(S)} \cup {[r EXCEPT ![1].ok = FALSE] : r \in Good(S)}
Twice(S) == {Append(r, r[1]) : r \in Good(S)}

(* variants of the exporter that do not care for order or for what is missing *)
Plain(r) == LET good == SelectSeq(r, LAMBDA a : a.ok) IN [i \in DOMAIN good |-> [n |-> good[i].n, b |-> good[i].b]]
Written(x0, S, r) ==
  LET y == ExportBatch(x0, S, r) IN
  IF y.state = "failed" /\ ~Whole
  THEN [x0 EXCEPT !.asked = @ \cup S, !.entries = @ \o Plain(r), !.state = IF Cardinality(x0.asked \cup S) = Len(Wanted(x0.q)) THEN "done" ELSE "running"]
  ELSE IF y.state # "failed" /\ ~Sorted THEN [y EXCEPT !.entries = x0.entries \o Plain(r)] ELSE y

Init == \E q \in Questions : x = ExportStart(q) /\ faulty = FALSE
Batch == /\ x.state = "running"
         /\ \E S \in SUBSET (x.q.from..x.q.to) :
            /\ MayAsk(x, S)
            /\ \/ \E r \in Good(S) \cup Twice(S) : x' = Written(x, S, r) /\ UNCHANGED faulty
               \/ \E r \in Bad(S) : x' = Written(x, S, r) /\ faulty' = TRUE
               \/ x' = ExportFail(x) /\ faulty' = TRUE
Spec == Init /\ [][Batch]_vars /\ WF_vars(Batch)

DoneIsRight == x.state = "done" => Right(x.q, Have, x.entries)
Beginning == \A i \in DOMAIN x.entries : x.entries[i] = [n |-> x.q.from + i - 1, b |-> Have[x.q.from + i - 1]]
FailsForAReason == x.state = "failed" => faulty
AllAsked == x.state = "done" => x.asked = x.q.from..x.q.to
Ends == <>(x.state # "running")
=============================================================================
