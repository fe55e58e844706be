----------------------------- MODULE MCContract -----------------------------
(* Contracts of all small terms, over all heights and histories of spends.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max, MaxHeight
IAdd(a, b) == a + b
ISub(a, b) == a - b
ILeq(a, b) == a <= b
IMul(a, b) == a * b
IDiv(a, b) == a \div b
NoTermsOf(kind, data, value) == [ok |-> FALSE, terms |-> <<>>]
MOwner(p) == [ok |-> p.kind = "own", who |-> p.who]
MHtlc(p) == p
MReward(h) == 0
L == INSTANCE Ledger WITH Add <- IAdd, Sub <- ISub, Leq <- ILeq, Mul <- IMul, Div <- IDiv, Zero <- 0, MaxAmount <- Max,
       Terms <- NoTermsOf, OwnerProof <- MOwner, HtlcProof <- MHtlc, Reward <- MReward

VTermsAll == [owner : {1}, start : 0..2, step : 0..2, stepAmount : 0..2, total : 0..Max]
HTermsAll == [sender : {1}, recipient : {2}, alg : {1}, root : {"r"}, count : 1..3, timeout : 0..2, total : 0..Max]
Prf(k, d, w, w2) == [kind |-> k, alg |-> 1, root |-> "r", depth |-> d, who |-> w, who2 |-> w2]
Proofs == {Prf("own", 0, w, 0) : w \in {1, 2}} \cup {Prf("regular", d, w, 0) : d \in 0..3, w \in {1, 2}}
          \cup {Prf("early", 0, 2, 1), Prf("early", 0, 1, 2), Prf("timeout", 0, 1, 0), Prf("timeout", 0, 2, 0), Prf("bad", 0, 1, 1)}
          \cup {[Prf("regular", 3, 2, 0) EXCEPT !.alg = 3], [Prf("regular", 3, 2, 0) EXCEPT !.root = "s"]}

VARIABLES acc, first, h, depth, signed
(* depth: the largest depth with which the recipient has spent; signed: the sender has taken part *)
vars == <<acc, first, h, depth, signed>>
Init ==
  /\ h = 0 /\ depth = 0 /\ signed = FALSE
  /\ \E b \in 0..Max : \/ \E t \in VTermsAll : acc = [kind |-> 1, bal |-> b, terms |-> t]
                       \/ \E t \in HTermsAll : acc = [kind |-> 2, bal |-> b, terms |-> t]
  /\ first = acc.bal
Spend(a, p) ==
  LET r == L!Spend(acc, [value |-> a, fee |-> 0, proof |-> p], h) IN
  /\ r.ok /\ acc' = r.acc
  /\ depth' = IF p.kind = "regular" /\ p.depth > depth THEN p.depth ELSE depth
  /\ signed' = (signed \/ p.kind \in {"early", "timeout"})
  /\ UNCHANGED <<first, h>>
Wait == h < MaxHeight /\ h' = h + 1 /\ UNCHANGED <<acc, first, depth, signed>>
Next == Wait \/ \E a \in 1..Max, p \in Proofs : Spend(a, p)
Spec == Init /\ [][Next]_vars

MinOf(a, b) == IF a < b THEN a ELSE b
(* C05: whatever the history, the locked part is still there; it shrinks with time *)
LockedStays == acc.kind = 1 => acc.bal >= MinOf(first, L!Locked(acc.terms, h))
LockShrinks == acc.kind = 1 => L!Locked(acc.terms, h + 1) <= L!Locked(acc.terms, h)
NothingEarly == acc.kind = 1 /\ h <= acc.terms.start => acc.bal = first
VestingOnlyOwner == [][acc.kind = 1 /\ acc' # acc => ~signed' /\ depth' = depth]_vars
(* C06 *)
RetainedStays == acc.kind = 2 /\ ~signed => acc.bal >= MinOf(first, L!Retained(acc.terms, depth))
TimeLock == [][acc.kind = 2 /\ acc' # acc /\ ~signed' => h <= acc.terms.timeout]_vars
TermsStay == [][acc'.terms = acc.terms /\ acc'.kind = acc.kind /\ acc'.bal <= acc.bal]_vars
=============================================================================
