----------------------------- MODULE TraceGenesis -----------------------------
(* Recorded openings of genesis profiles, initialisations (C30) and replays of *)
(* block archives (C31) against Genesis.tla with the real layouts, block       *)
(* application and state tree.                                                 *)
EXTENDS TraceLedger, StateTree

AccBytes(acc) ==
  LET t == acc.terms  n(x, k) == NToBytes(x, k) IN
  CASE acc.kind = 0 -> <<0>> \o n(acc.bal, 8)
    [] acc.kind = 1 -> <<1>> \o n(acc.bal, 8) \o HexToBytes(t.owner) \o n(t.start, 4) \o n(t.step, 4) \o n(t.stepAmount, 8) \o n(t.total, 8)
    [] acc.kind = 2 -> <<2>> \o n(acc.bal, 8) \o HexToBytes(t.sender) \o HexToBytes(t.recipient) \o n(t.alg, 1) \o HexToBytes(t.root)
                            \o n(t.count, 1) \o n(t.timeout, 4) \o n(t.total, 8)
RootOf(s) == TLCEval(T!Root(TLCEval([a \in DOMAIN s |-> BytesToHex(AccBytes(s[a]))])))

(* a block as the application sees it; the whole one is kept beside *)
Decoded(hex) == LET d == DecAll(BlockS(Zero32Hex), HexToBytes(hex)) IN [ok |-> d.ok, v |-> IF d.ok THEN d.v ELSE ""]
AccountsList == ST(<< <<"Accounts", SEQ(2, PrunedS)>> >>)
DecodedAccounts(hex) == LET d == DecAll(AccountsList, HexToBytes(hex)) IN [ok |-> d.ok, v |-> IF d.ok THEN d.v.Accounts ELSE ""]
AccountList(as) == [i \in 1..Len(as) |-> [addr |-> as[i].Address, acc |-> AccOf(as[i].Account.Account)]]
DecodedList(hex) == LET d == DecodedAccounts(hex) IN IF d.ok THEN [ok |-> TRUE, v |-> AccountList(d.v)] ELSE d
BlockParts(v) ==
  LET hd == v.Header IN
  IF v.Body = <<>> THEN [body |-> FALSE, h |-> hd.Height]
  ELSE LET body == v.Body[1] IN [body |-> TRUE, h |-> hd.Height, miner |-> body.MinerAddr, txs |-> body.Txs, pruned |-> body.Pruned]
PushBlock(s, v) == LET p == BlockParts(v) IN Outcome(s, p)
Claimed(v) == v.Header.AccountsHash
CountTxs(v) == IF v.Body = <<>> THEN 0 ELSE Len(v.Body[1].Txs)
NoAccounts == [a \in {} |-> 0]
PutAccount(s, a, acc) == L!PutAcc(s, a, acc)
G == INSTANCE Genesis WITH BlockIn <- Decoded, AccountsIn <- DecodedList, EmptyState <- NoAccounts, Put <- PutAccount, Push <- PushBlock,
       Root <- RootOf, ClaimedRoot <- Claimed, TxCount <- CountTxs

----------------------------------------------------------------------------
(* C30 *)
Files(e) == [conf |-> e.conf, block |-> e.blockfile, accounts |-> e.accountsfile]
StartGenesis(e) == [ok |-> FALSE]
SameBlock(v, hex) ==
  \E prev \in {Zero32Hex, v.Header.PrevHash} : LET d == DecAll(BlockS(prev), HexToBytes(hex)) IN d.ok /\ d.v = v
BadOpen(p, e) ==
  IF e.out \notin {"ok", "err"} THEN "opening a profile: " \o e.out
  ELSE IF p.ok # (e.out = "ok") THEN (IF p.ok THEN "a good profile is refused" ELSE "a broken profile is accepted")
  ELSE IF ~p.ok THEN ""
  ELSE IF e.gotconf # p.conf THEN "wrong configuration"
  ELSE IF ~SameBlock(e.gotblock, e.blockfile.bytes) THEN "wrong genesis block"
  ELSE IF e.gotaccounts # DecodedAccounts(e.accountsfile.bytes).v THEN "wrong genesis accounts" ELSE ""
(* blocks whose effect is not defined, see Undefined *)
Vague(s, v) == Undefined(s, BlockParts(v))
BadInit(p, e) ==
  IF p.ok /\ Vague(G!Listed(p.accounts), p.block) THEN "" ELSE
  LET r == TLCEval(G!InitState(p))  post == StateOf(e.state) IN
  IF e.out \notin {"ok", "err"} THEN "initialising: " \o e.out
  ELSE IF r.ok # (e.out = "ok") THEN (IF r.ok THEN "a good state is refused" ELSE "initialised although: " \o r.why)
  ELSE IF r.ok /\ post # r.s THEN "wrong accounts after initialising"
  ELSE IF r.ok /\ e.root # RootOf(r.s) THEN "wrong root after initialising"
  ELSE IF e.name = "main" /\ ~r.ok THEN "the main network cannot be initialised"
  ELSE IF e.name = "main" /\ L!Total(post) # SupplyAfter(1) THEN "the main network's balances are not the supply after block one"
  ELSE IF e.name = "main" /\ p.conf.GenesisHash # BytesToHex(Blake2b256(Enc(HeaderS, p.block.Header).b)) THEN "wrong genesis hash"
  ELSE IF e.name = "test" /\ ~r.ok THEN "the test network cannot be initialised" ELSE ""
JudgeGenesis(p, e) ==
  CASE e.ev = "open" -> LET o == TLCEval(G!Open(Files(e))) IN Verdict(BadOpen(o, e), o)
    [] e.ev = "init" -> Verdict(BadInit(p, e), p)

----------------------------------------------------------------------------
(* C31: one execution is one run of the tool; its lines are the files, the     *)
(* entries and the exit                                                        *)
StartReplay(e) ==
  LET p == TLCEval(G!Open(Files(e)))  m == TLCEval(G!ReplayStart(Files(e))) IN
  [m EXCEPT !.why = IF p.ok /\ Vague(G!Listed(p.accounts), p.block) THEN "undefined" ELSE @]
Entered(m, e) ==
  LET d == Decoded(e.bytes) IN
  IF m.ok /\ d.ok /\ Vague(m.s, d.v) THEN [m EXCEPT !.ok = FALSE, !.why = "undefined"] ELSE G!ReplayEntry(m, e.bytes)
BadExit(m, e) ==
  IF m.why = "undefined" THEN ""
  ELSE IF m.ok /\ e.whole THEN (IF e.rc # 0 THEN "a valid archive is refused"
                           ELSE IF e.blocks # m.blocks THEN "wrong number of blocks reported"
                           ELSE IF e.txs # m.txs THEN "wrong number of transactions reported" ELSE "")
  ELSE IF e.rc = 0 THEN "an archive is accepted although: " \o (IF m.ok THEN "cut off" ELSE m.why) ELSE ""
JudgeReplay(m, e) ==
  CASE e.ev = "files" -> Verdict("", m)
    [] e.ev = "entry" -> Verdict("", TLCEval(Entered(m, e)))
    [] e.ev = "exit" -> Verdict(BadExit(m, e), m)
=============================================================================
