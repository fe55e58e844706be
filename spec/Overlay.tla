------------------------------- MODULE Overlay -------------------------------
(* A stack of node stores: layer 1 holds entries, every further layer holds    *)
(* differences to the one below.  An absent difference is NoDiff, an absent    *)
(* entry (and a recorded deletion) is None.                                    *)
EXTENDS Integers, Sequences
CONSTANTS None, NoDiff

RECURSIVE ViewAt(_, _, _)
(* what layer i shows at key k *)
ViewAt(ls, i, k) == IF i > 1 /\ ls[i][k] = NoDiff THEN ViewAt(ls, i - 1, k) ELSE ls[i][k]
View(ls, i) == [k \in DOMAIN ls[i] |-> ViewAt(ls, i, k)]
Clean(ls, i) == \A k \in DOMAIN ls[i] : ls[i][k] = NoDiff

Write(ls, i, k, v) == [ls EXCEPT ![i][k] = v]   \* v = None deletes
Flush(ls, i) ==                                 \* i > 1
  [ls EXCEPT ![i - 1] = [k \in DOMAIN @ |-> IF ls[i][k] = NoDiff THEN @[k] ELSE ls[i][k]],
             ![i] = [k \in DOMAIN @ |-> NoDiff]]
(* one difference moves down; a flush moves them all, in any order *)
FlushOne(ls, i, k) == IF ls[i][k] = NoDiff THEN ls ELSE [ls EXCEPT ![i - 1][k] = ls[i][k], ![i][k] = NoDiff]
=============================================================================
