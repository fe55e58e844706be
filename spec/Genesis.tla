------------------------------- MODULE Genesis -------------------------------
(* Genesis profiles and the replay of block archives.                          *)
(*  files     [conf, block, accounts]: conf is [ok, v], what the configuration *)
(*            file says; the others are [there, bytes]                         *)
(*  opened    [ok, conf, block, accounts]                                      *)
(* Init and each block go through Push, the block application, and Root, the   *)
(* hash of the state tree.  A block is a decoded one.                          *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS BlockIn(_), AccountsIn(_),  \* bytes: [ok, v]
          EmptyState, Put(_, _, _),   \* state, address, account
          Push(_, _),                 \* state, block: [ok, s]
          Root(_), ClaimedRoot(_), TxCount(_)

NoProfile == [ok |-> FALSE]
Open(files) ==
  IF ~files.conf.ok \/ ~files.block.there \/ ~files.accounts.there THEN NoProfile
  ELSE LET bl == BlockIn(files.block.bytes)  ac == AccountsIn(files.accounts.bytes) IN
       IF bl.ok /\ ac.ok THEN [ok |-> TRUE, conf |-> files.conf.v, block |-> bl.v, accounts |-> ac.v] ELSE NoProfile
Listed(accounts) == FoldLeft(LAMBDA s, a : Put(s, a.addr, a.acc), EmptyState, accounts)
(* applying a block that must lead to the root it claims *)
Step(s, blk) ==
  LET r == TLCEval(Push(s, blk)) IN
  IF ~r.ok THEN [ok |-> FALSE, s |-> s, why |-> r.why]
  ELSE IF Root(r.s) # ClaimedRoot(blk) THEN [ok |-> FALSE, s |-> s, why |-> "wrong root"] ELSE [ok |-> TRUE, s |-> r.s, why |-> ""]
InitState(p) == IF p.ok THEN Step(Listed(p.accounts), p.block) ELSE [ok |-> FALSE, s |-> EmptyState, why |-> "no profile"]

(* replay: a machine that reads entries and stops at the first bad one *)
ReplayStart(files) == LET r == InitState(Open(files)) IN [ok |-> r.ok, s |-> r.s, blocks |-> 0, txs |-> 0, why |-> r.why]
ReplayEntry(m, entry) ==
  IF ~m.ok THEN m
  ELSE LET bl == BlockIn(entry) IN
       IF ~bl.ok THEN [m EXCEPT !.ok = FALSE, !.why = "undecodable"]
       ELSE LET r == Step(m.s, bl.v) IN
            IF ~r.ok THEN [m EXCEPT !.ok = FALSE, !.why = r.why]
            ELSE [ok |-> TRUE, s |-> r.s, blocks |-> m.blocks + 1, txs |-> m.txs + TxCount(bl.v), why |-> ""]
=============================================================================
