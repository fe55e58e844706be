------------------------------ MODULE TraceShare ------------------------------
(* Recorded sharing: blocks that are used for something else after they were   *)
(* applied and accounts that are changed by who looked them up (C33), many     *)
(* goroutines that read the same objects (C34), stored account records (C35),  *)
(* peer ids (C36).                                                             *)
EXTENDS TraceGenesis
A == INSTANCE Address

(* C33 *)
JudgeOwn(s, e) ==
  Verdict(CASE e.ev = "push" ->
                 IF e.out = "broken" THEN "the tree cannot be read after a block"
                 ELSE IF ~e.kept THEN "applying a block altered it"
                 ELSE IF ~e.stable THEN "the state changed when the applied block was overwritten"
                 ELSE IF ~e.again THEN "the state changed when an account that was looked up was overwritten" ELSE ""
            [] e.ev = "open" -> IF ~e.again THEN "the state changed when an account that was looked up was overwritten" ELSE ""
            [] OTHER -> "", s)

(* C34: reads of what nobody changes; the model state is the first event *)
StartReaders(e) == e
AccountText(a) == BytesToHex(A!EncodeAddress(HexToBytes(a)))
BadRead(s, e) ==
  IF e.out # "ok" THEN "reading: " \o e.out
  ELSE CASE e.what = "account" ->
              LET acc == L!Acc(StateOf(s.state), e.addr) IN
              IF AccOf(e.r.acc.Account) # acc \/ Num(e.r.bal) # acc.bal \/ ~e.r.eq THEN "wrong account looked up" ELSE ""
         [] e.what = "root" -> IF e.r # s.root \/ e.r # RootOf(StateOf(s.state)) THEN "wrong root" ELSE ""
         [] e.what = "block" ->
              LET x == Enc(BlockS(s.block.Header.PrevHash), s.block) IN
              IF ~e.r.ok \/ e.r.b # BytesToHex(x.b) \/ e.r.n # Len(x.b) THEN "wrong encoding of a block" ELSE ""
         [] e.what = "signer" -> IF e.r # SignerAddress(s.proof) THEN "wrong signer" ELSE ""
         [] e.what = "verify" -> IF e.r # TRUE THEN "wrong verification" ELSE ""
         [] e.what = "message" -> IF ~e.r.ok \/ e.r.b # BytesToHex(EncMessage(20, s.message).b) THEN "wrong encoding of a message" ELSE ""
         [] e.what = "text" -> IF ~e.r.ok \/ e.r.back # e.addr \/ e.r.text # AccountText(e.addr) THEN "wrong address text" ELSE ""
JudgeReaders(s, e) == Verdict(IF e.ev = "read" THEN BadRead(s, e) ELSE "", s)

(* C35: the model state is what is stored *)
StartRecords(e) == NoAccounts
Gone(w) == w.T = 255 \/ (w.T = 0 /\ Num(w.V.Value) = N0)
Stored(m, a, w) == IF Gone(w) THEN L!Without(m, {a}) ELSE (a :> AccOf(w)) @@ m
BadSeen(m, x) ==
  LET acc == L!Acc(m, x[1]) IN
  AccOf(x[2].Account) # acc \/ Num(x[3]) # acc.bal \/ x[4] # (acc.bal = N0) \/ x[5] # acc.kind
BadStore(m, e) ==
  IF e.out # "ok" THEN "storing: " \o e.out
  ELSE IF \E i \in DOMAIN e.seen : BadSeen(m, e.seen[i]) THEN "wrong account looked up"
  ELSE IF e.root # RootOf(m) THEN "wrong root" ELSE ""
SameAccount(x, y) == x.T # 255 /\ x.T = y.T /\ x.V = y.V
BadEq(e) ==
  IF e.out # "ok" THEN "comparing: " \o e.out
  ELSE IF e.r # SameAccount(e.x.Account, e.y.Account) \/ e.r2 # e.r THEN "wrong comparison" ELSE ""
JudgeRecords(m, e) ==
  CASE e.ev = "store" -> LET n == TLCEval(Stored(m, e.addr, e.acc.Account)) IN Verdict(BadStore(n, e), n)
    [] e.ev = "eq" -> Verdict(BadEq(e), m)

(* C36 *)
SchemeOf(p) == CASE p = 0 -> "dumb" [] p = 1 -> "wss" [] p = 2 -> "rtc" [] p = 4 -> "ws" [] OTHER -> "invalid"
BadPeerID(e) ==
  IF e.out # "ok" THEN "peer: " \o e.out
  ELSE CASE e.ev = "id" ->
              IF ~e.same THEN "key altered"
              ELSE IF e.id # BytesToHex(Take(Blake2b256(HexToBytes(e.pub)), 16)) THEN "wrong peer id" ELSE ""
         [] e.ev = "scheme" -> IF e.scheme # SchemeOf(e.proto) THEN "wrong scheme" ELSE ""
JudgePeerID(s, e) == Verdict(BadPeerID(e), s)
=============================================================================
