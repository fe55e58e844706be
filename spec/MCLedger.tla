------------------------------ MODULE MCLedger ------------------------------
(* Block application step by step, on a working copy: debit, credit, create,   *)
(* prune, pay, then commit; or reject at the first step that is not permitted. *)
(* Small amounts, three addresses, every mix of the chosen transactions.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max, Heights, Froms, Tos, Values, Fees0, BlockLen, Contracts3, Balances, Blocks

IAdd(a, b) == a + b
ISub(a, b) == a - b
ILeq(a, b) == a <= b
IMul(a, b) == a * b
IDiv(a, b) == a \div b
VTerms == [owner |-> 1, start |-> 1, step |-> 1, stepAmount |-> 2, total |-> 4]
HTerms == [sender |-> 1, recipient |-> 2, alg |-> 1, root |-> "r", count |-> 2, timeout |-> 2, total |-> 4]
(* data says which terms it spells *)
MTerms(kind, data, value) ==
  IF kind = 1 /\ data = "v" THEN [ok |-> TRUE, terms |-> [VTerms EXCEPT !.total = value]]
  ELSE IF kind = 2 /\ data = "h" THEN [ok |-> TRUE, terms |-> [HTerms EXCEPT !.total = value]]
  ELSE [ok |-> FALSE, terms |-> VTerms]
MOwner(p) == [ok |-> p[1] = "own", who |-> IF p[1] = "own" THEN p[2] ELSE 0]
MHtlc(p) == IF p[1] = "htlc" THEN p[2] ELSE [kind |-> "bad", alg |-> 0, root |-> "", depth |-> 0, who |-> 0, who2 |-> 0]
MReward(h) == IF h >= 3 THEN 0 ELSE 1
L == INSTANCE Ledger WITH Add <- IAdd, Sub <- ISub, Leq <- ILeq, Mul <- IMul, Div <- IDiv, Zero <- 0, MaxAmount <- Max,
       Terms <- MTerms, OwnerProof <- MOwner, HtlcProof <- MHtlc, Reward <- MReward

Addrs == {1, 2, 3}
Reg(d, who) == <<"htlc", [kind |-> "regular", alg |-> 1, root |-> "r", depth |-> d, who |-> who, who2 |-> 0]>>
Early == <<"htlc", [kind |-> "early", alg |-> 1, root |-> "r", depth |-> 0, who |-> 2, who2 |-> 1]>>
Timeout == <<"htlc", [kind |-> "timeout", alg |-> 1, root |-> "r", depth |-> 0, who |-> 1, who2 |-> 0]>>
BadProof == <<"bad", 0>>
Proofs(type) == CASE type = 0 -> {BadProof} [] type = 1 -> {<<"own", 1>>, <<"own", 2>>} [] type = 2 -> {Reg(1, 2), Reg(2, 2), Reg(2, 1), Early, Timeout}
(* sender type, recipient type, creation, data *)
Forms == {<<0, FALSE, "">>, <<1, TRUE, "v">>, <<2, TRUE, "h">>}
Txs ==
  UNION {{[from |-> f, fromType |-> ft, to |-> t, toType |-> m[1], value |-> v, fee |-> e, creates |-> m[2], data |-> m[3], proof |-> p] :
            t \in Tos, m \in Forms, v \in Values, e \in Fees0, p \in Proofs(ft)} : f \in Froms, ft \in {0, 1, 2}}
(* types as declared by somebody who knows the accounts, or a wrong one *)
Sensible(s, tx) == tx.fromType = L!Acc(s, tx.from).kind \/ (tx.fromType = 0 /\ tx.value = 1 /\ tx.fee = 0)
Empties == {[kind |-> 1, bal |-> 0, terms |-> VTerms], [kind |-> 2, bal |-> 0, terms |-> HTerms]}
Prunings == {<<>>} \cup {<<[addr |-> 3, acc |-> a]>> : a \in Empties \cup {[kind |-> 1, bal |-> 1, terms |-> VTerms]}}
            \cup {<<[addr |-> 3, acc |-> a], [addr |-> 3, acc |-> a]>> : a \in Empties}

VARIABLES state, work, blk, pc, i, why, done
vars == <<state, work, blk, pc, i, why, done>>
NoBlock == [h |-> 0, miner |-> 1, txs |-> <<>>, pruned |-> <<>>]
Start3 == CASE Contracts3 = "all" -> {"none", "basic", "vesting", "htlc"} [] OTHER -> {Contracts3}
Of3(c) == CASE c = "none" -> L!Nobody [] c = "basic" -> L!Basic(2)
            [] c = "vesting" -> [kind |-> 1, bal |-> 4, terms |-> VTerms] [] c = "htlc" -> [kind |-> 2, bal |-> 4, terms |-> HTerms]
Init ==
  /\ \E b1 \in Balances, b2 \in Balances, c \in Start3 :
       state = L!PutAcc(L!PutAcc(L!PutAcc(<<>>, 1, L!Basic(b1)), 2, L!Basic(b2)), 3, Of3(c))
  /\ work = <<>> /\ blk = NoBlock /\ pc = "idle" /\ i = 0 /\ why = "" /\ done = 0

Idle == pc = "idle"
(* a block arrives, one transaction after the other *)
StartBlock ==
  /\ Idle /\ done < Blocks
  /\ \E h \in Heights, m \in {1, 3}, pr \in Prunings : blk' = [h |-> h, miner |-> m, txs |-> <<>>, pruned |-> pr]
  /\ pc' = "gather" /\ UNCHANGED <<state, work, i, why, done>>
AddTx ==
  /\ pc = "gather" /\ Len(blk.txs) < BlockLen
  /\ \E tx \in Txs : Sensible(state, tx) /\ blk' = [blk EXCEPT !.txs = Append(@, tx)]
  /\ UNCHANGED <<state, work, pc, i, why, done>>
Begin == pc = "gather" /\ pc' = "debit" /\ i' = 1 /\ work' = state /\ UNCHANGED <<state, blk, why, done>>

Take(r, next) ==
  IF r.ok THEN work' = r.s /\ UNCHANGED why /\ pc' = pc /\ i' = next
  ELSE UNCHANGED work /\ why' = r.why /\ pc' = "reject" /\ UNCHANGED i
StepTx(here, after, r) ==
  /\ pc = here
  /\ IF i > Len(blk.txs) THEN pc' = after /\ i' = 1 /\ UNCHANGED <<work, why>> ELSE Take(r, i + 1)
  /\ UNCHANGED <<state, blk, done>>
Tx == blk.txs[i]
Debit == StepTx("debit", "credit", L!DebitTx(work, Tx, blk.h))
Credit == StepTx("credit", "create", L!CreditTx(work, Tx))
Create == StepTx("create", "prune", L!CreateTx(work, Tx))
Once(here, after, r) ==
  /\ pc = here
  /\ IF r.ok THEN work' = r.s /\ pc' = after /\ UNCHANGED why ELSE pc' = "reject" /\ why' = r.why /\ UNCHANGED work
  /\ UNCHANGED <<state, blk, i, done>>
Prune == Once("prune", "pay", L!PruneAll(work, blk.txs, blk.pruned))
Pay == Once("pay", "commit", L!PayMiner(work, blk))
Finish == pc' = "idle" /\ work' = <<>> /\ blk' = NoBlock /\ i' = 0 /\ why' = "" /\ done' = done + 1
Commit == pc = "commit" /\ state' = work /\ Finish
Reject == pc = "reject" /\ state' = state /\ Finish
Next == StartBlock \/ AddTx \/ Begin \/ Debit \/ Credit \/ Create \/ Prune \/ Pay \/ Commit \/ Reject
Spec == Init /\ [][Next]_vars
(* C38: the storage fails while a block is being checked *)
Crash == pc \notin {"idle", "gather"} /\ state' = state /\ Finish
SpecCrash == Init /\ [][Next \/ Crash]_vars

----------------------------------------------------------------------------
Bounded == \A a \in DOMAIN state : state[a].bal \in 0..Max /\ (state[a].kind = 0 => state[a].bal > 0)
Outgoing(a, txs) == L!SumSeq([j \in 1..Len(txs) |-> IF txs[j].from = a THEN L!Amount(txs[j]) ELSE 0])
Incoming(a, txs) == L!SumSeq([j \in 1..Len(txs) |-> IF txs[j].to = a THEN txs[j].value ELSE 0])
Bal(s, a) == L!Acc(s, a).bal
(* C01 *) Conserves == [][pc = "commit" => L!Total(state') = L!Total(state) + MReward(blk.h)]_vars
(* C02 *) OnlyCommitChanges == [][state' # state => pc = "commit"]_vars
(* C03 *) StepsAreThePush == /\ pc = "commit" => L!Push(state, blk) = L!Go(work)
                             /\ pc = "reject" => ~L!Push(state, blk).ok /\ L!Push(state, blk).why = why
(* C03, C04 *)
NoEarlySpending == pc = "commit" => \A a \in Addrs : L!Acc(state, a).kind = 0 => Outgoing(a, blk.txs) <= Bal(state, a)
EveryBalance == pc = "commit" => \A a \in Addrs :
   LET pay == IF a = blk.miner THEN L!MinerPay(blk) ELSE 0 IN
   Bal(work, a) = Bal(state, a) - Outgoing(a, blk.txs) + Incoming(a, blk.txs) + pay
(* C05 *)
VestingHolds == pc = "commit" => \A a \in DOMAIN state : state[a].kind = 1 =>
   /\ Bal(work, a) >= (IF Bal(state, a) < L!Locked(VTerms, blk.h) THEN Bal(state, a) ELSE L!Locked(state[a].terms, blk.h))
   /\ \A j \in DOMAIN blk.txs : blk.txs[j].from = a => blk.txs[j].proof = <<"own", 1>>
(* C06 *)
HtlcHolds == pc = "commit" => \A a \in DOMAIN state : state[a].kind = 2 /\ Outgoing(a, blk.txs) > 0 =>
   \A j \in DOMAIN blk.txs : blk.txs[j].from = a =>
     LET p == blk.txs[j].proof[2] IN
     /\ p.kind = "regular" => blk.h <= 2 /\ p.who = 2
     /\ p.kind = "timeout" => blk.h > 2 /\ p.who = 1
     /\ p.kind = "early" => p.who = 2 /\ p.who2 = 1
(* C07 *)
TermsKept == pc = "commit" => \A a \in DOMAIN state : state[a].kind # 0 =>
   \/ a \in DOMAIN work /\ work[a].kind = state[a].kind /\ work[a].terms = state[a].terms /\ work[a].bal <= state[a].bal
   \/ a \in {blk.pruned[j].addr : j \in DOMAIN blk.pruned}
NewContracts == pc = "commit" => \A a \in DOMAIN work : (work[a].kind # 0 /\ L!Acc(state, a).kind = 0) =>
   \E j \in DOMAIN blk.txs : blk.txs[j].creates /\ blk.txs[j].to = a
(* C08 *)
GoneAccounts == pc = "commit" => \A a \in DOMAIN state \ DOMAIN work :
   state[a].kind = 0 \/ \E j \in DOMAIN blk.pruned : blk.pruned[j].addr = a
(* C09 *)
MinerIsBasic == pc = "commit" => L!Acc(work, blk.miner).kind = 0
(* C11 *) Reversible == pc = "commit" => L!Unpush(work, blk) = state
(* C37 *)
CauseFound == pc = "reject" =>
  LET f == L!Failure(state, blk) IN
  f.why = why /\ f.s = work /\ (f.phase \in {"debit", "credit", "create"} => f.i = i)
(* prints every start state and block: the inputs of the small-scope replay    *)
AccText(a) ==
  LET acc == L!Acc(state, a) IN
  ToString(acc.kind) \o "." \o ToString(acc.bal)
ProofText(p) ==
  CASE p[1] = "bad" -> "x"
    [] p[1] = "own" -> "o" \o ToString(p[2])
    [] OTHER -> CASE p[2].kind = "regular" -> "r" \o ToString(p[2].depth) \o ToString(p[2].who) [] p[2].kind = "early" -> "e" [] OTHER -> "t"
TxText(tx) ==
  ToString(tx.from) \o "," \o ToString(tx.fromType) \o "," \o ToString(tx.to) \o "," \o ToString(tx.toType) \o ","
  \o ToString(tx.value) \o "," \o ToString(tx.fee) \o "," \o ProofText(tx.proof)
PruneText(x) == ToString(x.addr) \o "." \o ToString(x.acc.kind) \o "." \o ToString(x.acc.bal)
Join(seq, T(_)) == IF seq = <<>> THEN "-" ELSE IF Len(seq) = 1 THEN T(seq[1]) ELSE T(seq[1]) \o ";" \o T(seq[2])
(* accepted blocks and those that one change makes acceptable *)
Without_(txs, j) == SubSeq(txs, 1, j - 1) \o SubSeq(txs, j + 1, Len(txs))
Near == \/ L!Push(state, blk).ok
        \/ Len(blk.txs) < 2 /\ Len(blk.pruned) < 2
        \/ \E pr \in Prunings : L!Push(state, [blk EXCEPT !.pruned = pr]).ok
        \/ \E j \in DOMAIN blk.txs, pr \in {<<>>, blk.pruned} : L!Push(state, [blk EXCEPT !.txs = Without_(@, j), !.pruned = pr]).ok
        \/ L!Push(state, [blk EXCEPT !.miner = 1]).ok
Edges == (pc = "gather" /\ pc' = "debit") => ~ (Near => 
  PrintT("OUT " \o AccText(1) \o " " \o AccText(2) \o " " \o AccText(3) \o " " \o ToString(blk.h) \o " " \o ToString(blk.miner) \o " "
         \o Join(blk.txs, TxText) \o " " \o Join(blk.pruned, PruneText)
         \o " " \o (LET r == L!Push(state, blk) IN IF r.ok THEN "ok" ELSE r.why)))
(* not invariants: their violation shows that the interesting cases are reached *)
NeverPrunes == pc = "commit" => blk.pruned = <<>>
NeverCreates == pc = "commit" => \A a \in DOMAIN work : work[a].kind # 0 => L!Acc(state, a).kind # 0
NeverHtlc == pc = "commit" => \A a \in DOMAIN state : state[a].kind = 2 => Bal(work, a) = Bal(state, a)
NeverVesting == pc = "commit" => \A a \in DOMAIN work : work[a].kind = 1 => work[a].bal >= Bal(state, a)
=============================================================================
