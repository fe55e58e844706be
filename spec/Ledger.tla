------------------------------- MODULE Ledger -------------------------------
(* Account state and block application.                                        *)
(*   state    function from addresses to accounts; absent = basic, empty       *)
(*   account  [kind, bal, terms]; kind 0 basic, 1 vesting, 2 hashed time-lock  *)
(*   tx       [from, fromType, to, toType, value, fee, creates, data, proof]   *)
(*   block    [h, miner, txs, pruned]; pruned lists [addr, acc]                *)
(* Numbers are abstract: small integers in model checking, BigNat in traces.   *)
(* Amounts go up to MaxAmount and nothing wraps around.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Add(_, _), Sub(_, _), Leq(_, _), Mul(_, _), Div(_, _), Zero, MaxAmount,
          Terms(_, _, _),   \* kind, data, value: [ok, terms] of the contract a transaction asks for
          OwnerProof(_),    \* proof: [ok, who]
          HtlcProof(_),     \* proof: [kind, alg, root, depth, who, who2], kind "bad" if malformed
          Reward(_)         \* height

BasicKind == 0
VestingKind == 1
HtlcKind == 2
UnknownKind == 255
NoTerms == <<>>
Basic(b) == [kind |-> BasicKind, bal |-> b, terms |-> NoTerms]
WithBal(acc, b) == [acc EXCEPT !.bal = b]
Nobody == Basic(Zero)
Acc(s, a) == IF a \in DOMAIN s THEN s[a] ELSE Nobody
Without(s, as) == [x \in DOMAIN s \ as |-> s[x]]
(* empty basic accounts do not exist *)
PutAcc(s, a, acc) == IF acc = Nobody THEN Without(s, {a}) ELSE (a :> acc) @@ s
Lt(a, b) == Leq(a, b) /\ a # b
Monus(a, b) == IF Leq(b, a) THEN Sub(a, b) ELSE Zero
Amount(tx) == Add(tx.value, tx.fee)
SumSeq(ns) == FoldLeft(LAMBDA x, y : Add(x, y), Zero, ns)
Total(s) == SumSeq([i \in 1..Cardinality(DOMAIN s) |-> s[SetToSeq(DOMAIN s)[i]].bal])
Fees(txs) == SumSeq([i \in 1..Len(txs) |-> txs[i].fee])

Yes(acc) == [ok |-> TRUE, acc |-> acc, why |-> ""]
No(why) == [ok |-> FALSE, acc |-> Nobody, why |-> why]

----------------------------------------------------------------------------
(* Vesting *)
Locked(t, h) ==
  IF Leq(h, t.start) THEN MaxAmount
  ELSE IF t.step = Zero \/ t.stepAmount = Zero THEN Zero
  ELSE Monus(t.total, Mul(Div(Sub(h, t.start), t.step), t.stepAmount))
Unlocked(acc, h) == Monus(acc.bal, Locked(acc.terms, h))
SpendVesting(acc, tx, h) ==
  LET p == OwnerProof(tx.proof) IN
  IF ~Leq(Amount(tx), Unlocked(acc, h)) THEN No("vesting: more than unlocked")
  ELSE IF ~p.ok \/ p.who # acc.terms.owner THEN No("vesting: not the owner")
  ELSE Yes(WithBal(acc, Sub(acc.bal, Amount(tx))))

(* Hashed time-locked contracts: what has to stay when depth of count hashes are revealed *)
Retained(t, depth) == IF Leq(t.count, depth) THEN Zero ELSE Div(Mul(t.total, Sub(t.count, depth)), t.count)
SpendHtlc(acc, tx, h) ==
  LET p == HtlcProof(tx.proof)  t == acc.terms
      left == Sub(acc.bal, Amount(tx)) IN
  IF ~Leq(Amount(tx), acc.bal) THEN No("htlc: more than the balance")
  ELSE IF CASE p.kind = "regular" -> /\ Leq(h, t.timeout) /\ p.alg = t.alg /\ p.root = t.root /\ p.who = t.recipient
                                     /\ Leq(Retained(t, p.depth), left)
            [] p.kind = "early" -> p.who = t.recipient /\ p.who2 = t.sender
            [] p.kind = "timeout" -> Lt(t.timeout, h) /\ p.who = t.sender
            [] OTHER -> FALSE
       THEN Yes(WithBal(acc, left)) ELSE No("htlc: rules")

(* one account: what a transaction takes from it, gives to it, makes of it *)
Spend(acc, tx, h) ==
  CASE acc.kind = BasicKind ->
         IF Leq(Amount(tx), acc.bal) THEN Yes(Basic(Sub(acc.bal, Amount(tx)))) ELSE No("basic: overdraw")
    [] acc.kind = VestingKind -> SpendVesting(acc, tx, h)
    [] acc.kind = HtlcKind -> SpendHtlc(acc, tx, h)
Receive(acc, amount) ==
  IF acc.kind # BasicKind THEN No("credit: contract")
  ELSE IF ~Leq(Add(acc.bal, amount), MaxAmount) THEN No("basic: overflow")
  ELSE Yes(Basic(Add(acc.bal, amount)))
Create(acc, tx) ==
  LET t == Terms(tx.toType, tx.data, tx.value) IN
  IF acc.kind # BasicKind THEN No("creation: contract exists")
  ELSE IF tx.toType \notin {VestingKind, HtlcKind} \/ ~t.ok THEN No("creation: data")
  ELSE Yes([kind |-> tx.toType, bal |-> acc.bal, terms |-> t.terms])

----------------------------------------------------------------------------
(* The steps of a block on the working state s: [ok, s, why] *)
Go(s) == [ok |-> TRUE, s |-> s, why |-> ""]
Stop(s, why) == [ok |-> FALSE, s |-> s, why |-> why]
Applied(s, a, r) == IF r.ok THEN Go(PutAcc(s, a, r.acc)) ELSE Stop(s, r.why)

DebitTx(s, tx, h) ==
  IF tx.fromType # Acc(s, tx.from).kind THEN Stop(s, "type: sender") ELSE Applied(s, tx.from, Spend(Acc(s, tx.from), tx, h))
CreditTx(s, tx) ==
  IF ~tx.creates /\ tx.toType # Acc(s, tx.to).kind THEN Stop(s, "type: recipient")
  ELSE Applied(s, tx.to, Receive(Acc(s, tx.to), tx.value))
CreateTx(s, tx) == IF tx.creates THEN Applied(s, tx.to, Create(Acc(s, tx.to), tx)) ELSE Go(s)

(* the contracts that the transactions leave empty *)
Emptied(s, txs) == {a \in {txs[i].from : i \in DOMAIN txs} : Acc(s, a).kind # BasicKind /\ Acc(s, a).bal = Zero}
PruneAll(s, txs, pruned) ==
  LET named == {pruned[i].addr : i \in DOMAIN pruned} IN
  IF Cardinality(named) # Len(pruned) THEN Stop(s, "prune: repeated")
  ELSE IF named # Emptied(s, txs) THEN Stop(s, "prune: wrong accounts")
  ELSE IF \E i \in DOMAIN pruned : pruned[i].acc # s[pruned[i].addr] THEN Stop(s, "prune: altered")
  ELSE Go(Without(s, named))
MinerPay(blk) == Add(Reward(blk.h), Fees(blk.txs))
PayMiner(s, blk) ==
  LET r == Receive(Acc(s, blk.miner), MinerPay(blk)) IN
  IF ~Leq(MinerPay(blk), MaxAmount) THEN Stop(s, "miner: overflow")
  ELSE IF Acc(s, blk.miner).kind # BasicKind THEN Stop(s, "miner: contract")
  ELSE Applied(s, blk.miner, r)

Phase(r, txs, Op(_, _)) == FoldLeft(LAMBDA acc, tx : IF acc.ok THEN Op(acc.s, tx) ELSE acc, r, txs)
Debited(s, blk) == Phase(Go(s), blk.txs, LAMBDA x, tx : DebitTx(x, tx, blk.h))
Credited(s, blk) == Phase(Debited(s, blk), blk.txs, CreditTx)
Created(s, blk) == Phase(Credited(s, blk), blk.txs, CreateTx)
Pruned(s, blk) == LET r == Created(s, blk) IN IF r.ok THEN PruneAll(r.s, blk.txs, blk.pruned) ELSE r
Paid(s, blk) == LET r == Pruned(s, blk) IN IF r.ok THEN PayMiner(r.s, blk) ELSE r
(* the step at which a block fails: its phase, the transaction, the working state then *)
FailsIn(r, txs, Op(_, _)) ==
  FoldLeft(LAMBDA acc, tx : IF acc.r.ok THEN [i |-> acc.i + 1, r |-> Op(acc.r.s, tx)] ELSE acc, [i |-> 0, r |-> r], txs)
Failure(s, blk) ==
  LET d == FailsIn(Go(s), blk.txs, LAMBDA x, tx : DebitTx(x, tx, blk.h))
      c == FailsIn(d.r, blk.txs, CreditTx)
      k == FailsIn(c.r, blk.txs, CreateTx)
      p == PruneAll(k.r.s, blk.txs, blk.pruned)
      step(phase, f) == [phase |-> phase, i |-> f.i, s |-> f.r.s, why |-> f.r.why] IN
  CASE ~d.r.ok -> step("debit", d)
    [] d.r.ok /\ ~c.r.ok -> step("credit", c)
    [] d.r.ok /\ c.r.ok /\ ~k.r.ok -> step("create", k)
    [] OTHER -> IF ~p.ok THEN [phase |-> "prune", i |-> 0, s |-> k.r.s, why |-> p.why]
                ELSE [phase |-> "pay", i |-> 0, s |-> p.s, why |-> PayMiner(p.s, blk).why]
(* outcome of a block: the state it leads to, or the unchanged one and a reason *)
Push(s, blk) == LET r == Paid(s, blk) IN IF r.ok THEN r ELSE Stop(s, r.why)

----------------------------------------------------------------------------
(* The inverse of an accepted block, from the block and the later state alone  *)
Unpaid(s, blk) == PutAcc(s, blk.miner, WithBal(Acc(s, blk.miner), Sub(Acc(s, blk.miner).bal, MinerPay(blk))))
Unpruned(s, blk) == FoldLeft(LAMBDA x, p : (p.addr :> p.acc) @@ x, s, blk.pruned)
Uncreated(s, txs) == FoldLeft(LAMBDA x, tx : IF tx.creates THEN PutAcc(x, tx.to, Basic(Acc(x, tx.to).bal)) ELSE x, s, txs)
Uncredited(s, txs) ==
  FoldLeft(LAMBDA x, tx : PutAcc(x, tx.to, WithBal(Acc(x, tx.to), Sub(Acc(x, tx.to).bal, tx.value))), s, txs)
Undebited(s, txs) ==
  FoldLeft(LAMBDA x, tx : PutAcc(x, tx.from, WithBal(Acc(x, tx.from), Add(Acc(x, tx.from).bal, Amount(tx)))), s, txs)
Unpush(s, blk) == Undebited(Uncredited(Uncreated(Unpruned(Unpaid(s, blk), blk), blk.txs), blk.txs), blk.txs)
=============================================================================
