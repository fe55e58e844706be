----------------------------- MODULE TraceLedger -----------------------------
(* Recorded block applications, account operations and reverts against         *)
(* Ledger.tla.  The model state is the account state read from the stored      *)
(* leaves.                                                                     *)
EXTENDS TraceBase, FiniteSets, Wire, Emission

AccOf(w) ==
  LET v == w.V IN
  CASE w.T = 0 -> [kind |-> 0, bal |-> Num(v.Value), terms |-> <<>>]
    [] w.T = 1 -> [kind |-> 1, bal |-> Num(v.Value),
                   terms |-> [owner |-> v.Owner, start |-> Num(v.VestingStart), step |-> Num(v.VestingStepBlocks),
                              stepAmount |-> Num(v.VestingStepAmount), total |-> Num(v.VestingTotalAmount)]]
    [] w.T = 2 -> [kind |-> 2, bal |-> Num(v.Value),
                   terms |-> [sender |-> v.Sender, recipient |-> v.Recipient, alg |-> Num(v.Hash.Algorithm), root |-> v.Hash.Bytes,
                              count |-> Num(v.HashCount), timeout |-> Num(v.Timeout), total |-> Num(v.TotalAmount)]]
    [] OTHER -> [kind |-> w.T, bal |-> N0, terms |-> <<>>]

(* creation data *)
VestingData(n) ==
  ST(<< <<"Owner", FIX(20)>> >> \o (IF n = 24 THEN <<>> ELSE << <<"Start", U32>> >>) \o << <<"Step", U32>> >>
     \o (IF n = 24 THEN <<>> ELSE << <<"StepAmount", U64>> >>) \o (IF n = 44 THEN << <<"Total", U64>> >> ELSE <<>>))
HtlcData == ST(<< <<"Sender", FIX(20)>>, <<"Recipient", FIX(20)>>, <<"Hash", HashS>>, <<"HashCount", U8>>, <<"Timeout", U32>> >>)
TermsOf(kind, data, value) ==
  LET bb == HexToBytes(data)  n == Len(bb)  bad == [ok |-> FALSE, terms |-> <<>>] IN
  CASE kind = 1 ->
         IF n \notin {24, 36, 44} THEN bad
         ELSE LET v == DecAll(VestingData(n), bb).v IN
              [ok |-> TRUE, terms |->
                 [owner |-> v.Owner, start |-> IF n = 24 THEN N0 ELSE Num(v.Start), step |-> Num(v.Step),
                  stepAmount |-> IF n = 24 THEN value ELSE Num(v.StepAmount), total |-> IF n = 44 THEN Num(v.Total) ELSE value]]
    [] kind = 2 ->
         LET d == DecAll(HtlcData, bb) IN
         IF ~d.ok THEN bad
         ELSE IF Num(d.v.HashCount) = N0 THEN bad
         ELSE [ok |-> TRUE, terms |->
                 [sender |-> d.v.Sender, recipient |-> d.v.Recipient, alg |-> Num(d.v.Hash.Algorithm), root |-> d.v.Hash.Bytes,
                  count |-> Num(d.v.HashCount), timeout |-> Num(d.v.Timeout), total |-> value]]
    [] OTHER -> bad

(* proofs *)
OwnerOf(proof) ==
  LET d == DecAll(SigProofS, HexToBytes(proof)) IN
  IF d.ok THEN [ok |-> TRUE, who |-> SignerAddress(d.v)] ELSE [ok |-> FALSE, who |-> ""]
RegularS == ST(<< <<"Algorithm", U8>>, <<"HashDepth", U8>>, <<"HashRoot", FIX(32)>>, <<"PreImage", FIX(32)>>, <<"Proof", SigProofS>> >>)
EarlyS == ST(<< <<"RecipientProof", SigProofS>>, <<"SenderProof", SigProofS>> >>)
TimeoutS == ST(<< <<"Proof", SigProofS>> >>)
HtlcOf(proof) ==
  LET bb == HexToBytes(proof)
      rest == Drop(bb, 1)
      kind == IF bb = <<>> THEN 0 ELSE bb[1]
      s == CASE kind = 1 -> RegularS [] kind = 2 -> EarlyS [] kind = 3 -> TimeoutS [] OTHER -> [k |-> "bad"]
      d == DecAll(s, rest)
      base == [kind |-> "bad", alg |-> N0, root |-> "", depth |-> N0, who |-> "", who2 |-> ""] IN
  IF ~d.ok THEN base
  ELSE CASE kind = 1 -> [kind |-> "regular", alg |-> Num(d.v.Algorithm), root |-> d.v.HashRoot, depth |-> Num(d.v.HashDepth),
                         who |-> SignerAddress(d.v.Proof), who2 |-> ""]
         [] kind = 2 -> [base EXCEPT !.kind = "early", !.who = SignerAddress(d.v.RecipientProof), !.who2 = SignerAddress(d.v.SenderProof)]
         [] kind = 3 -> [base EXCEPT !.kind = "timeout", !.who = SignerAddress(d.v.Proof)]

RewardAt(h) == Reward(NToInt(h))
L == INSTANCE Ledger WITH Add <- NAdd, Sub <- NSub, Leq <- NLeq, Mul <- NMul, Div <- NDiv, Zero <- N0, MaxAmount <- MaxU64,
       Terms <- TermsOf, OwnerProof <- OwnerOf, HtlcProof <- HtlcOf, Reward <- RewardAt

TxOf(w) ==
  LET c == TxContent(w)  flags == NToInt(Num(c.Flags)) IN
  [from |-> c.Sender, fromType |-> NToInt(Num(c.SenderType)), to |-> c.Recipient, toType |-> NToInt(Num(c.RecipientType)),
   value |-> Num(c.Value), fee |-> Num(c.Fee), creates |-> flags % 2 = 1, data |-> c.Data,
   proof |-> IF w.T = 1 THEN w.V.Proof ELSE ""]
BlockOf(e) ==
  [h |-> Num(e.h), miner |-> e.miner, txs |-> TLCEval([i \in 1..Len(e.txs) |-> TxOf(e.txs[i].Tx)]),
   pruned |-> [i \in 1..Len(e.pruned) |-> [addr |-> e.pruned[i].Address, acc |-> AccOf(e.pruned[i].Account.Account)]]]

(* leaves: address, bytes; UnreadableLeaf never equals an account of the model *)
UnreadableLeaf == [kind |-> 99, bal |-> N0, terms |-> <<>>]
LeafAcc(hex) == LET d == DecAll(AccountS, HexToBytes(hex)) IN IF d.ok THEN AccOf(d.v) ELSE UnreadableLeaf
StateOf(leaves) ==
  TLCEval([a \in {leaves[i][1] : i \in DOMAIN leaves} |-> LeafAcc(leaves[CHOOSE i \in DOMAIN leaves : leaves[i][1] = a][2])])
StartLedger(e) == StateOf(e.state)
StartSmall(e) == <<>>

Outcome(pre, e) ==
  IF ~e.body \/ Num(e.h) = N0 THEN L!Stop(pre, "block: no body or height") ELSE TLCEval(L!Push(pre, BlockOf(e)))
(* a contract that is created empty at the address of a sender: what has to be pruned is not defined *)
Undefined(pre, e) ==
  /\ e.body
  /\ LET bb == BlockOf(e) IN \E i, j \in DOMAIN bb.txs : bb.txs[i].creates /\ bb.txs[i].to = bb.txs[j].from /\ bb.txs[i].value = N0

Accepted(e) == e.out = "ok"
Starts_(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contracts(s) == {a \in DOMAIN s : s[a].kind # 0}
Froms(bb) == {bb.txs[i].from : i \in DOMAIN bb.txs}
Tos(bb) == {bb.txs[i].to : i \in DOMAIN bb.txs}

Bad01(pre, e, post) ==
  IF Accepted(e) /\ e.body /\ Num(e.h) # N0 /\ L!Total(post) # NAdd(L!Total(pre), RewardAt(Num(e.h))) THEN "funds are not conserved" ELSE ""
Bad02(pre, e, post) ==
  IF Accepted(e) THEN ""
  ELSE IF post # pre THEN "a rejected block changed accounts"
  ELSE IF ~e.same THEN "a rejected block changed the stored tree" ELSE ""
SeenWrong(e, post) ==
  \E i \in DOMAIN e.seen : LET a == L!Acc(post, e.seen[i][1]) IN
     \/ e.seen[i][2] # a.kind \/ Num(e.seen[i][3]) # a.bal
Bad03(pre, e, post) ==
  LET o == Outcome(pre, e) IN
  IF o.ok /\ ~Accepted(e) THEN "a permitted block is not accepted"
  ELSE IF ~o.ok /\ Accepted(e) THEN "a block is accepted although: " \o o.why
  ELSE IF Accepted(e) /\ post # o.s THEN "wrong accounts after a block"
  ELSE IF SeenWrong(e, post) THEN "account lookup differs from the stored account" ELSE ""
Bad04(pre, e, post) ==
  LET o == Outcome(pre, e)  bb == BlockOf(e) IN
  IF ~o.ok THEN (IF Accepted(e) /\ (Starts_(o.why, "basic: ") \/ Starts_(o.why, "type: ")) THEN "accepted: " \o o.why ELSE "")
  ELSE LET kinds == {L!Acc(pre, a).kind : a \in Froms(bb) \cup Tos(bb) \cup {bb.miner}} IN
       IF ~Accepted(e) /\ kinds \subseteq {0} /\ (\A i \in DOMAIN bb.txs : ~bb.txs[i].creates) /\ bb.pruned = <<>>
       THEN "permitted basic transactions refused"
       ELSE IF Accepted(e) /\ \E a \in DOMAIN pre \cup DOMAIN post : /\ L!Acc(pre, a).kind = 0 /\ L!Acc(o.s, a).kind = 0 /\ a # bb.miner
                                                                     /\ L!Acc(post, a) # L!Acc(o.s, a)
       THEN "wrong balance of a basic account" ELSE ""
ContractBad(pre, e, post, kind, word) ==
  LET o == Outcome(pre, e) IN
  IF ~o.ok THEN (IF Accepted(e) /\ Starts_(o.why, word) THEN "accepted: " \o o.why ELSE "")
  ELSE IF Accepted(e) /\ \E a \in DOMAIN pre : pre[a].kind = kind /\ L!Acc(post, a) # L!Acc(o.s, a) THEN "wrong contract after a block" ELSE ""
Bad05(pre, e, post) == ContractBad(pre, e, post, 1, "vesting: ")
Bad06(pre, e, post) == ContractBad(pre, e, post, 2, "htlc: ")
Bad07(pre, e, post) ==
  LET o == Outcome(pre, e)  bb == BlockOf(e)
      made == {bb.txs[i].to : i \in {j \in DOMAIN bb.txs : bb.txs[j].creates}} IN
  IF Accepted(e) /\ \E a \in (Contracts(pre) \cap DOMAIN post) \ {bb.pruned[i].addr : i \in DOMAIN bb.pruned} :
       post[a].kind # pre[a].kind \/ post[a].terms # pre[a].terms \/ ~NLeq(post[a].bal, pre[a].bal)
  THEN "a contract was credited, re-created or altered"
  ELSE IF Accepted(e) /\ ~(Contracts(post) \subseteq Contracts(pre) \cup made) THEN "a contract appeared"
  ELSE IF ~o.ok THEN (IF Accepted(e) /\ (Starts_(o.why, "creation: ") \/ Starts_(o.why, "credit: ")) THEN "accepted: " \o o.why ELSE "")
  ELSE IF ~Accepted(e) /\ made # {} /\ Froms(bb) \cap Contracts(pre) = {} THEN "permitted contract creation refused"
  ELSE IF Accepted(e) /\ \E a \in made : L!Acc(post, a) # L!Acc(o.s, a) THEN "wrong new contract" ELSE ""
Bad08(pre, e, post) ==
  LET o == Outcome(pre, e)  bb == BlockOf(e) IN
  IF ~Accepted(e) THEN (IF o.ok /\ bb.pruned # <<>> THEN "a block is rejected although its prune list is right" ELSE "")
  ELSE IF ~o.ok THEN (IF Starts_(o.why, "prune: ") THEN "accepted: " \o o.why ELSE "")
  ELSE IF \E i \in DOMAIN bb.pruned : bb.pruned[i].addr \in DOMAIN post /\ post[bb.pruned[i].addr].kind # 0 THEN "a pruned contract still exists"
  ELSE IF \E a \in DOMAIN o.s : a \notin DOMAIN post THEN "an account was removed"
  ELSE IF \E a \in DOMAIN post : a \notin DOMAIN o.s THEN "an empty account was kept" ELSE ""
Bad09(pre, e, post) ==
  IF ~Accepted(e) \/ ~e.body \/ Num(e.h) = N0 THEN ""
  ELSE LET bb == BlockOf(e)  r == TLCEval(L!Pruned(pre, bb)) IN
       IF ~r.ok THEN ""
       ELSE IF L!Acc(r.s, bb.miner).kind # 0 THEN "accepted: miner holds a contract"
       ELSE IF L!Acc(post, bb.miner).bal # NAdd(L!Acc(r.s, bb.miner).bal, L!MinerPay(bb)) THEN "the miner is not paid reward and fees"
       ELSE IF \E a \in DOMAIN post : a # bb.miner /\ ~NLeq(post[a].bal, L!Acc(r.s, a).bal) THEN "somebody else is credited" ELSE ""
Bad10(pre, e, post) == IF e.out \in {"ok", "err"} THEN "" ELSE "block application: " \o e.out

(* C37: what the error of a rejected block says is true of the step that fails *)
Named(x, a) == Len(x) = 1 /\ x[1] = a
Over(x, avail, tx) ==
  Len(x) = 2 /\ Num(x[1]) = avail /\ (NLeq(L!Amount(tx), MaxU64) => Num(x[2]) = L!Amount(tx))
WrongPrunes(f, bb) ==
  LET named == {bb.pruned[i].addr : i \in DOMAIN bb.pruned}  empty == L!Emptied(f.s, bb.txs) IN
  (named \ empty) \cup (empty \ named)
  \cup {bb.pruned[i].addr : i \in {j \in DOMAIN bb.pruned : \/ bb.pruned[j].acc # L!Acc(f.s, bb.pruned[j].addr)
                                                          \/ \E k \in DOMAIN bb.pruned : k # j /\ bb.pruned[k].addr = bb.pruned[j].addr}}
BadCause(f, bb, r) ==
  LET tx == bb.txs[f.i]  from == L!Acc(f.s, tx.from)  to == L!Acc(f.s, tx.to) IN
  CASE f.why = "type: sender" ->
         IF r.mismatch = <<tx.fromType, from.kind>> THEN ""
         ELSE IF tx.fromType = 255 THEN (IF Named(r.sender, tx.from) THEN "" ELSE "invalid sender not named") ELSE "type mismatch of the sender not reported"
    [] f.why = "basic: overdraw" -> IF Over(r.over, from.bal, tx) THEN "" ELSE "overdraw not reported"
    [] f.why = "vesting: more than unlocked" ->
         IF r.over # <<>> THEN (IF Over(r.over, L!Unlocked(from, bb.h), tx) THEN "" ELSE "wrong amount unlocked reported")
         ELSE LET p == OwnerOf(tx.proof) IN IF p.ok /\ p.who = from.terms.owner THEN "overspend of a vesting contract not reported" ELSE ""
    [] f.why = "htlc: more than the balance" -> IF r.over # <<>> /\ ~Over(r.over, from.bal, tx) THEN "wrong balance reported" ELSE ""
    [] f.why = "vesting: not the owner" -> IF r.over # <<>> THEN "overspend reported" ELSE ""
    [] f.why = "type: recipient" ->
         IF r.mismatch = <<tx.toType, to.kind>> THEN ""
         ELSE IF tx.toType = 255 THEN (IF Named(r.recipient, tx.to) THEN "" ELSE "invalid recipient not named") ELSE "type mismatch of the recipient not reported"
    [] f.why = "creation: contract exists" -> IF Named(r.recipient, tx.to) THEN "" ELSE "existing contract not named"
    [] f.why = "creation: data" ->
         IF tx.toType \in {1, 2} \/ Named(r.recipient, tx.to) THEN "" ELSE "recipient of an invalid creation not named"
    [] Starts_(f.why, "prune: ") ->
         IF \E a \in WrongPrunes(f, bb) : Named(r.prune, a) THEN "" ELSE "no wrongly pruned account named"
    [] f.why = "miner: contract" -> IF r.mismatch = <<0, L!Acc(f.s, bb.miner).kind>> THEN "" ELSE "type mismatch of the miner not reported"
    [] f.why = "miner: overflow" -> IF Named(r.recipient, bb.miner) THEN "" ELSE "miner not named"
    [] OTHER -> ""
(* nothing that does not apply is reported *)
Spurious(f, r) ==
  \/ r.over # <<>> /\ f.why \notin {"basic: overdraw", "vesting: more than unlocked", "htlc: more than the balance", "htlc: rules"}
  \/ r.mismatch # <<>> /\ f.why \notin {"type: sender", "type: recipient", "miner: contract"}
  \/ r.prune # <<>> /\ ~Starts_(f.why, "prune: ")
Bad37(pre, e, post) ==
  IF e.out # "err" \/ ~e.body \/ Num(e.h) = N0 THEN ""
  ELSE LET bb == BlockOf(e)  f == TLCEval(L!Failure(pre, bb)) IN
       IF f.why = "" THEN ""
       ELSE IF e.msg = "" THEN "error without a text"
       ELSE IF Spurious(f, e.err) THEN "an error that does not apply is reported: " \o f.why
       ELSE LET c == BadCause(f, bb, e.err) IN IF c = "" THEN "" ELSE c \o ": " \o f.why

(* account operations *)
Applied(e) ==
  LET a == AccOf(e.acc)  tx == TxOf(e.tx)  h == Num(e.h) IN
  CASE e.op = "out" -> L!Spend(a, tx, h)
    [] e.op = "in" -> L!Receive(a, tx.value)
    [] e.op = "init" -> L!Create(a, tx)
BadApply(e) ==
  LET r == Applied(e) IN
  IF e.out \notin {"ok", "err"} THEN "account operation: " \o e.out
  ELSE IF r.ok # (e.out = "ok") THEN (IF r.ok THEN "permitted operation refused" ELSE "permitted although: " \o r.why)
  ELSE IF r.ok /\ AccOf(e.res) # r.acc THEN "wrong account after the operation"
  ELSE IF r.ok /\ (Num(e.bal) # r.acc.bal \/ e.empty # (r.acc.bal = N0)) THEN "balance or emptiness misreported"
  ELSE IF ~e.same THEN "the operation altered its arguments"
  ELSE IF ~e.again THEN "applying once more gives another result" ELSE ""

JudgePush(before, e, Bad(_, _, _), defined) ==
  LET pre == IF "pre" \in DOMAIN e THEN StateOf(e.pre) ELSE before IN
  CASE e.ev = "open" -> Verdict("", pre)
    [] e.ev = "apply" -> Verdict(BadApply(e), pre)
    [] e.ev = "push" ->
         LET post == StateOf(e.state) IN
         Verdict(IF e.out = "broken" THEN "the tree cannot be read after a block"
                 ELSE IF defined /\ Undefined(pre, e) THEN "" ELSE Bad(pre, e, post), post)
Judge01(s, e) == JudgePush(s, e, Bad01, FALSE)
Judge02(s, e) == JudgePush(s, e, Bad02, FALSE)
Judge03(s, e) == JudgePush(s, e, Bad03, TRUE)
Judge04(s, e) == JudgePush(s, e, Bad04, TRUE)
Judge05(s, e) == JudgePush(s, e, Bad05, TRUE)
Judge06(s, e) == JudgePush(s, e, Bad06, TRUE)
Judge07(s, e) == JudgePush(s, e, Bad07, TRUE)
Judge08(s, e) == JudgePush(s, e, Bad08, TRUE)
Judge09(s, e) == JudgePush(s, e, Bad09, TRUE)
Judge10(s, e) == JudgePush(s, e, Bad10, FALSE)
Judge37(s, e) == JudgePush(s, e, Bad37, TRUE)

(* C38: the storage fails while a block is checked *)
Bad38(pre, e, post) ==
  IF e.ev = "fault" /\ e.fired
  THEN IF e.out = "ok" THEN "a block is accepted although the storage failed"
       ELSE IF post # pre THEN "an interrupted block changed accounts"
       ELSE IF ~e.same THEN "an interrupted block changed the stored tree" ELSE ""
  ELSE LET x == Bad02(pre, e, post) IN IF x # "" THEN x ELSE IF Undefined(pre, e) THEN "" ELSE Bad03(pre, e, post)
Judge38(s, e) == JudgePush(s, IF e.ev = "fault" THEN [e EXCEPT !.ev = "push"] ELSE e, LAMBDA a, x, c : Bad38(a, [x EXCEPT !.ev = e.ev], c), FALSE)

(* C11: the model state is the pair of the states before and after the last block *)
StartRevert(e) == [before |-> StateOf(e.state), now |-> StateOf(e.state)]
JudgeRevert(s, e) ==
  CASE e.ev = "open" -> Verdict("", s)
    [] e.ev = "push" -> LET post == StateOf(e.state) IN Verdict("", [before |-> s.now, now |-> post])
    [] e.ev = "revert" ->
         LET post == StateOf(e.state) IN
         Verdict(IF e.out # "ok" THEN "reverting an accepted block: " \o e.out \o ": " \o e.msg
                 ELSE IF post # s.before \/ ~e.same THEN "reverting does not restore the state" ELSE "", [s EXCEPT !.now = post])
=============================================================================
