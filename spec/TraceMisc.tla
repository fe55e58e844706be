------------------------------ MODULE TraceMisc ------------------------------
(* Judges recorded calls: C25, C26 addresses; C27, C28 emission; C29 targets;  *)
(* C32 nibbles.                                                                *)
EXTENDS TraceBase, Bytes, Emission, Compact
A == INSTANCE Address
P == INSTANCE Nibbles

BadAddress(e) ==
  CASE e.ev = "encode" ->
         IF e.out # "ok" THEN "encoding: " \o e.out
         ELSE IF e["in"] = "altered" THEN "address altered"
         ELSE IF e.text # BytesToHex(A!EncodeAddress(HexToBytes(e["in"]))) THEN "wrong text" ELSE ""
    [] e.ev = "decode" ->
         IF e.out # "ok" THEN "own text refused: " \o e.out
         ELSE IF e.addr # e.orig THEN "text decodes to another address" ELSE ""
    [] e.ev = "text" ->
         LET s == HexToBytes(e.text)  D == A!DecodeAddress(s) IN
         IF e.out \notin {"ok", "err"} THEN "decoding: " \o e.out
         ELSE IF A!OddCheck(s)
         THEN (IF e.out = "ok" /\ ~(D.ok /\ e.addr = BytesToHex(D.addr)) THEN "invalid text accepted" ELSE "")
         ELSE IF D.ok # (e.out = "ok") THEN (IF D.ok THEN "valid text refused" ELSE "invalid text accepted")
         ELSE IF D.ok /\ e.addr # BytesToHex(D.addr) THEN "text decodes to another address" ELSE ""
JudgeAddress(q, e) == Verdict(BadAddress(e), q)

----------------------------------------------------------------------------
(* Queries between are answered in any order: q carries what was asked. *)
BadEmission(e) ==
  CASE e.ev = "run" -> IF e.out = "ok" THEN "" ELSE "queries: " \o e.out
    [] e.ev = "q" ->
         IF e.fn = "reward" /\ e.h = 0 THEN ""
         ELSE IF e.out # "ok" THEN "query: " \o e.out
         ELSE IF NOfHex(e.r) # (IF e.fn = "after" THEN SupplyAfter(e.h) ELSE Reward(e.h)) THEN "wrong answer" ELSE ""
    [] e.ev = "step" ->
         LET before == NOfHex(e.before)  reward == NOfHex(e.reward)  after == NOfHex(e.after) IN
         IF e.out # "ok" THEN "query: " \o e.out
         ELSE IF reward # RewardFrom(before, e.h) THEN "wrong reward"
         ELSE IF after # NAdd(before, reward) THEN "supply does not grow by the reward"
         ELSE IF after # SupplyAfter(e.h) THEN "wrong supply"
         ELSE IF ~NLeq(after, TotalSupply) THEN "supply above the total"
         ELSE IF e.between # e.after THEN "wrong supply between two blocks"
         ELSE IF e.bysupply # e.reward THEN "wrong reward by supply"
         ELSE ""
    [] e.ev = "pure" ->
         IF e.out # "ok" THEN "reward: " \o e.out
         ELSE IF NOfHex(e.r) # RewardFrom(NOfHex(e.supply), e.h) THEN "wrong reward by supply" ELSE ""
JudgeEmission(q, e) == Verdict(BadEmission(e), q)

----------------------------------------------------------------------------
BadCompact(e) ==
  CASE e.ev = "compact" ->
         IF e.out # "ok" THEN "target: " \o e.out
         ELSE IF ~e.same THEN "target altered"
         ELSE IF e.r # BytesToHex(CompactOf(NOfHex(e.x))) THEN "wrong compact form" ELSE ""
    [] e.ev = "difficulty" ->
         LET t == TargetOfDifficulty(NOfHex(e.x)) IN
         IF e.out # "ok" \/ e.cout # "ok" THEN "difficulty: " \o e.out \o " " \o e.cout
         ELSE IF ~e.same \/ NOfHex(e.max) # MaxTarget THEN "argument or maximum target altered"
         ELSE IF NOfHex(e.target) # t THEN "wrong target of a difficulty"
         ELSE IF t # N0 /\ e.r # BytesToHex(CompactOf(t)) THEN "wrong compact form of a difficulty" ELSE ""
JudgeCompact(q, e) == Verdict(BadCompact(e), q)

----------------------------------------------------------------------------
BadNibbles(e) ==
  IF e.out # "ok" THEN "nibbles: " \o e.out
  ELSE IF ~e.same THEN "argument altered"
  ELSE CASE e.ev = "key" ->
         IF HexToBytes(e.nbs) # P!Split(HexToBytes(e.key)) THEN "wrong nibbles of a key"
         ELSE IF e.back # e.key THEN "nibbles do not join to the key" ELSE ""
    [] e.ev = "paths" ->
         LET p == HexToBytes(e.p)  q == HexToBytes(e.q)  c == BytesToHex(P!Common(p, q)) IN
         IF HexToBytes(e.packed) # P!Pack(p) THEN "wrong packed form"
         ELSE IF HexToBytes(e.hex) # P!HexForm(p) \/ e.str # e.hex THEN "wrong hex form"
         ELSE IF e.common # c \/ e.common2 # c THEN "wrong common prefix"
         ELSE IF e.pre # P!IsPrefixOf(p, q) \/ e.pre2 # P!IsPrefixOf(q, p) THEN "wrong prefix relation"
         ELSE LET w == HexToBytes(e.whole) IN
              IF (e.join = "ok") # P!KeyPath(w) THEN "wrong length joined to a key, or a key refused"
              ELSE IF e.join = "ok" /\ HexToBytes(e.joined) # P!Join(w) THEN "wrong key joined"
         ELSE ""
JudgeNibbles(q, e) == Verdict(BadNibbles(e), q)
=============================================================================
