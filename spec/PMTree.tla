------------------------------- MODULE PMTree -------------------------------
(* The Patricia-Merkle state tree over a key-node store.                       *)
(*  - Canon(c): the nodes that represent the contents c (a function from keys  *)
(*    to non-empty values), and Root(c), the root hash, as functions of c.     *)
(*  - PutAlg: what an insertion, update or deletion does to the stored nodes,  *)
(*    step by step as in tree/tree.go: descend, split, invalidate the hashes    *)
(*    on the path, prune, and recompute what was invalidated.                  *)
(* Paths are strings or sequences (only Len, SubSeq and \o are applied to      *)
(* them).  All keys have the same length.  A store is a function from paths to *)
(* nodes; a branch has a function from the next path element of each child to  *)
(* the rest of its path and its hash.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Paths

CONSTANTS LeafHash(_, _),   \* key, value
          BranchHash(_, _), \* path, children
          ZeroHash, Root0   \* Root0: the empty path

First(p) == SubSeq(p, 1, 1)
From(p, n) == SubSeq(p, n + 1, Len(p))
IsPrefix_(p, q) == CommonLen(p, q) = Len(p)

Leaf(k, v) == [t |-> "leaf", p |-> k, v |-> v]
Branch(p, ch) == [t |-> "branch", p |-> p, ch |-> ch]
ChildOf(sfx, h) == [s |-> sfx, h |-> h]
NodeHash(n) == IF n.t = "leaf" THEN LeafHash(n.p, n.v) ELSE BranchHash(n.p, n.ch)

----------------------------------------------------------------------------
(* Canonical tree *)
(* longest path that is a prefix of all keys in S *)
SharedLen(S) ==
  LET k == CHOOSE x \in S : TRUE
      ls == {CommonLen(k, x) : x \in S}
  IN CHOOSE m \in ls : \A x \in ls : m <= x
(* node at the top of the subtree that holds the keys S (not empty), and all nodes below *)
RECURSIVE Subtree(_, _)
BranchOver(p, S, c) ==
  LET heads == {SubSeq(k, Len(p) + 1, Len(p) + 1) : k \in S}
      sub == TLCEval([h \in heads |-> Subtree({k \in S : SubSeq(k, Len(p) + 1, Len(p) + 1) = h}, c)])
      top == TLCEval(Branch(p, [h \in heads |-> ChildOf(From(sub[h].top.p, Len(p)), sub[h].hash)]))
  IN TLCEval([top |-> top, hash |-> NodeHash(top), all |-> {top} \cup UNION {sub[h].all : h \in heads}])
Subtree(S, c) ==
  IF Cardinality(S) = 1
  THEN LET k == CHOOSE x \in S : TRUE  n == Leaf(k, c[k]) IN [top |-> n, hash |-> NodeHash(n), all |-> {n}]
  ELSE BranchOver(SubSeq(CHOOSE x \in S : TRUE, 1, SharedLen(S)), S, c)
(* the root is a branch, even with one child or none *)
CanonTop(c) == BranchOver(Root0, DOMAIN c, c)
CanonNodes(c) == CanonTop(c).all
Canon(c) == LET ns == CanonNodes(c) IN [p \in {n.p : n \in ns} |-> CHOOSE n \in ns : n.p = p]
Root(c) == CanonTop(c).hash

(* abstract effect of a put; v = Nothing deletes *)
PutMap(c, k, v, nothing) ==
  IF v = nothing THEN [x \in DOMAIN c \ {k} |-> c[x]] ELSE (k :> v) @@ c
Changes(c, k, v, nothing) == IF k \in DOMAIN c THEN c[k] # v ELSE v # nothing

----------------------------------------------------------------------------
(* The algorithm.  A path of branches is kept from the root to the parent.     *)
PutN(st, n) == (n.p :> n) @@ st
DelN(st, p) == [q \in DOMAIN st \ {p} |-> st[q]]
SetChild(n, sfx, h) == [n EXCEPT !.ch = (First(sfx) :> ChildOf(sfx, h)) @@ @]
Init1(st) == SubSeq(st, 1, Len(st) - 1)
LastOf(s) == s[Len(s)]

RECURSIVE Invalidate(_, _, _)
Invalidate(st, cur, path) ==
  IF path = <<>> THEN st
  ELSE LET n == SetChild(LastOf(path), From(cur, Len(LastOf(path).p)), ZeroHash)
       IN Invalidate(PutN(st, n), n.p, Init1(path))

RECURSIVE Prune(_, _, _)
Prune(st, cur, path) ==
  IF path = <<>> THEN st
  ELSE LET n0 == LastOf(path)
           gone == SubSeq(cur, Len(n0.p) + 1, Len(n0.p) + 1)
           n == [n0 EXCEPT !.ch = [h \in DOMAIN @ \ {gone} |-> @[h]]]
           heads == DOMAIN n.ch
       IN IF Cardinality(heads) = 1 /\ Len(n.p) > 0
          THEN Invalidate(DelN(st, n.p), n.p \o n.ch[CHOOSE h \in heads : TRUE].s, Init1(path))
          ELSE IF heads # {} \/ Len(n.p) = 0
          THEN Invalidate(PutN(st, n), n.p, Init1(path))
          ELSE Prune(st, n.p, Init1(path))

RECURSIVE Update(_, _, _, _, _, _)
Update(st, np, k, v, nothing, path) ==
  IF ~IsPrefix_(np, k)
  THEN LET p == SubSeq(k, 1, CommonLen(np, k))
           b0 == Branch(p, <<>>)
           b == SetChild(SetChild([b0 EXCEPT !.ch = [h \in {} |-> 0]], From(np, Len(p)), ZeroHash), From(k, Len(p)), ZeroHash)
       IN Invalidate(PutN(PutN(st, Leaf(k, v)), b), p, path)
  ELSE IF np = k
  THEN IF v = nothing THEN Prune(DelN(st, k), k, path)
       ELSE Invalidate(PutN(st, Leaf(k, v)), k, path)
  ELSE LET n == st[np]
           h == SubSeq(k, Len(np) + 1, Len(np) + 1)
       IN IF h \in DOMAIN n.ch
          THEN Update(st, np \o n.ch[h].s, k, v, nothing, Append(path, n))
          ELSE Invalidate(PutN(PutN(st, Leaf(k, v)), SetChild(n, From(k, Len(np)), ZeroHash)), np, path)

(* recompute the invalidated hashes below p; gives the store and the hash of p *)
RECURSIVE Rehash(_, _)
RECURSIVE RehashKids(_, _, _)
RehashKids(st, n, todo) ==
  IF todo = {} THEN [st |-> PutN(st, n), h |-> NodeHash(n)]
  ELSE LET h == CHOOSE x \in todo : TRUE
           r == Rehash(st, n.p \o n.ch[h].s)
       IN RehashKids(r.st, SetChild(n, n.ch[h].s, r.h), todo \ {h})
Rehash(st, p) ==
  LET n == st[p] IN
  IF n.t = "leaf" THEN [st |-> st, h |-> NodeHash(n)]
  ELSE RehashKids(st, n, {h \in DOMAIN n.ch : n.ch[h].h = ZeroHash})

PutAlg(st, k, v, nothing) ==
  IF k \notin DOMAIN st /\ v = nothing THEN [st |-> st, changed |-> FALSE]
  ELSE IF k \in DOMAIN st /\ st[k].t = "leaf" /\ st[k].v = v THEN [st |-> st, changed |-> FALSE]
  ELSE [st |-> Rehash(Update(st, Root0, k, v, nothing, <<>>), Root0).st, changed |-> TRUE]
EmptyStore == (Root0 :> Branch(Root0, [h \in {} |-> 0]))
=============================================================================
