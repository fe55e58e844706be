------------------------------- MODULE Export -------------------------------
(* The block export (docs/block_export.md): blocks are asked for in batches,   *)
(* the server answers each batch in whatever order it likes, and the archive   *)
(* holds a manifest and then every block asked for, in the order of heights.   *)
EXTENDS Integers, Sequences, FiniteSets

(* What is asked for: the heights from..to, at most batch of them at once.     *)
Wanted(q) == [i \in 1..(IF q.to < q.from THEN 0 ELSE q.to - q.from + 1) |-> q.from + i - 1]

(* A reply is a sequence of answers [n, ok, b].                                *)
Answers(reply, n) == {i \in DOMAIN reply : reply[i].n = n /\ reply[i].ok}
AnswerTo(reply, n) == reply[CHOOSE i \in Answers(reply, n) : TRUE].b

(* x: where the export stands; got: the blocks that were answered, entries:    *)
(* those that can be written, all before them being there                      *)
NoBlocks == [n \in {} |-> 0]
ExportStart(q) == [q |-> q, asked |-> {}, got |-> NoBlocks, entries |-> <<>>, state |-> IF q.to < q.from THEN "done" ELSE "running"]
MayAsk(x, S) == /\ S # {} /\ Cardinality(S) <= x.q.batch
                /\ \A n \in S : n >= x.q.from /\ n <= x.q.to /\ n \notin x.asked
RECURSIVE Ready(_, _)
Ready(got, n) == IF n \in DOMAIN got THEN 1 + Ready(got, n + 1) ELSE 0
(* one batch S answered *)
ExportBatch(x, S, reply) ==
  IF \E n \in S : Answers(reply, n) = {} THEN [x EXCEPT !.asked = @ \cup S, !.state = "failed"]
  ELSE LET got == [n \in DOMAIN x.got \cup S |-> IF n \in S THEN AnswerTo(reply, n) ELSE x.got[n]]
           more == Ready(got, x.q.from + Len(x.entries)) IN
       [x EXCEPT !.asked = @ \cup S, !.got = got,
                 !.entries = @ \o [i \in 1..more |-> [n |-> x.q.from + Len(x.entries) + i - 1, b |-> got[x.q.from + Len(x.entries) + i - 1]]],
                 !.state = IF Cardinality(DOMAIN got) = Len(Wanted(x.q)) THEN "done" ELSE "running"]
ExportFail(x) == [x EXCEPT !.state = "failed"]

(* what an archive has to hold, given what the server has under each height    *)
Right(q, have, entries) == entries = [i \in DOMAIN Wanted(q) |-> [n |-> Wanted(q)[i], b |-> have[Wanted(q)[i]]]]
=============================================================================
