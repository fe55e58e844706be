------------------------------- MODULE MCFork -------------------------------
(* Speculative states (C42): a state on a store of differences over another    *)
(* state's store.  View s shows what it differs in, over what its parent shows.*)
(* own is what the same operations give on a store of its own.                 *)
(* Discipline TRUE: a state is only changed while no other is forked from it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids, Max, Amounts, Discipline

IAdd(a, b) == a + b
ISub(a, b) == a - b
ILeq(a, b) == a <= b
IMul(a, b) == a * b
IDiv(a, b) == a \div b
NoTermsOf(kind, data, value) == [ok |-> FALSE, terms |-> <<>>]
NobodyOwns(p) == [ok |-> FALSE, who |-> 0]
NoHtlc(p) == [kind |-> "bad", alg |-> 0, root |-> "", depth |-> 0, who |-> 0, who2 |-> 0]
MReward(h) == 1
L == INSTANCE Ledger WITH Add <- IAdd, Sub <- ISub, Leq <- ILeq, Mul <- IMul, Div <- IDiv, Zero <- 0, MaxAmount <- Max,
       Terms <- NoTermsOf, OwnerProof <- NobodyOwns, HtlcProof <- NoHtlc, Reward <- MReward

Addrs == {1, 2}
Pay(f, t, v) == [from |-> f, fromType |-> 0, to |-> t, toType |-> 0, value |-> v, fee |-> 0, creates |-> FALSE, data |-> "", proof |-> ""]
Blocks == {[h |-> 1, miner |-> m, txs |-> x, pruned |-> <<>>] :
             m \in Addrs, x \in {<<>>} \cup {<<Pay(f, t, v)>> : f \in Addrs, t \in Addrs, v \in Amounts}}

VARIABLES parent, diff, own, last
vars == <<parent, diff, own, last>>
Root == 0                     \* the id of the state at the bottom
Live == DOMAIN parent
NoDiff == -2                  \* nothing recorded
Empty == -1                   \* recorded as absent
Clean == [a \in Addrs |-> NoDiff]
RECURSIVE At(_, _, _, _)
At(p, d, s, a) == LET x == d[s][a] IN IF x # NoDiff THEN x ELSE At(p, d, p[s], a)
Shows(p, d, s) ==
  LET v == [a \in Addrs |-> At(p, d, s, a)] IN [a \in {x \in Addrs : v[x] # Empty} |-> L!Basic(v[a])]
View(s) == Shows(parent, diff, s)
Written(s) == [a \in Addrs |-> IF a \in DOMAIN s THEN s[a].bal ELSE Empty]
Children(s) == {c \in Live \ {Root} : parent[c] = s}
Free(s) == Discipline => Children(s) = {}

Init == /\ parent = [s \in {Root} |-> Root]
        /\ \E b \in 0..1 : LET s == L!PutAcc(L!PutAcc(<<>>, 1, L!Basic(1)), 2, L!Basic(b)) IN
             own = [x \in {Root} |-> s] /\ diff = [x \in {Root} |-> Written(s)]
        /\ last = <<"init", 0>>
Fork(s, c) == /\ c \notin Live
              /\ parent' = (c :> s) @@ parent /\ diff' = (c :> Clean) @@ diff /\ own' = (c :> own[s]) @@ own
              /\ last' = <<"fork", c>>
(* a block is checked against what the state shows; what it changes is recorded there *)
Push(s, b) ==
  LET r == L!Push(View(s), b)
      w == Written(r.s)
      o == L!Push(own[s], b) IN
  /\ Free(s)
  /\ diff' = IF r.ok THEN [diff EXCEPT ![s] = [a \in Addrs |-> IF w[a] = At(parent, diff, s, a) THEN diff[s][a] ELSE w[a]]] ELSE diff
  /\ own' = [own EXCEPT ![s] = o.s]
  /\ last' = <<"push", s, r.ok, o.ok>> /\ UNCHANGED parent
(* the differences move down; other states forked from the same one are dropped *)
Drop1(f, xs) == [x \in DOMAIN f \ xs |-> f[x]]
Flush(s) ==
  LET p == parent[s]  gone == IF Discipline THEN Children(p) \ {s} ELSE {} IN
  /\ s # Root /\ Children(s) = {} /\ \A g \in gone : Children(g) = {}
  /\ parent' = Drop1(parent, gone)
  /\ diff' = Drop1([diff EXCEPT ![p] = [a \in Addrs |-> IF diff[s][a] = NoDiff THEN @[a] ELSE diff[s][a]], ![s] = Clean], gone)
  /\ own' = Drop1([own EXCEPT ![p] = own[s]], gone)
  /\ last' = <<"flush", s>>
Drop(s) == /\ s # Root /\ Children(s) = {}
           /\ parent' = Drop1(parent, {s}) /\ diff' = Drop1(diff, {s}) /\ own' = Drop1(own, {s}) /\ last' = <<"drop", s>>
Next == \/ \E s \in Live, c \in Ids : Fork(s, c)
        \/ \E s \in Live, b \in Blocks : Push(s, b)
        \/ \E s \in Live : Flush(s) \/ Drop(s)
Spec == Init /\ [][Next]_vars
View_ == <<parent, diff, own>>

(* C42 *)
AsOnItsOwn == \A s \in Live : View(s) = own[s]
SameVerdict == last[1] = "push" => last[3] = last[4]
OthersKept == [][last'[1] \in {"push", "fork", "drop"} =>
                 \A s \in Live \cap DOMAIN parent' : s # last'[2] => Shows(parent', diff', s) = View(s)]_vars
FlushMoves == [][last'[1] = "flush" =>
                 LET s == last'[2]  p == parent[s] IN
                 /\ Shows(parent', diff', p) = View(s) /\ Shows(parent', diff', s) = View(s)
                 /\ \A x \in DOMAIN parent' : x # p => Shows(parent', diff', x) = View(x)]_vars
=============================================================================
