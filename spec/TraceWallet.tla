----------------------------- MODULE TraceWallet -----------------------------
(* Recorded signing of transactions (C23) and peer addresses (C24).  The       *)
(* model state of C23 is the wallet's key and address, of C24 the signed peer  *)
(* address.                                                                    *)
EXTENDS TraceBase, Wallet

RealVerify(pub, msg, sig) == Ed25519Verify(HexToBytes(pub), msg, HexToBytes(sig))

StartWallet(e) == ""
BadWallet(e) ==
  IF e.seed # "" /\ HexToBytes(e.pub) # Ed25519Public(HexToBytes(e.seed)) THEN "wallet: wrong public key"
  ELSE IF e.addr # KeyAddress(e.pub) THEN "wallet: wrong address" ELSE ""
BadSign(pub, e) ==
  IF e.pub # pub \/ e.addr # KeyAddress(pub) THEN "signing altered the wallet"
  ELSE IF ~MaySign(pub, e.tx) THEN (IF e.out # "err" THEN "signed for another key: " \o e.out ELSE IF e.after # e.tx THEN "refusing altered the transaction" ELSE "")
  ELSE IF e.out # "ok" THEN "signing: " \o e.out
  ELSE IF ~IsSigned(pub, e.tx, e.after) THEN "not signed as it should be" ELSE ""
(* what the code says about a transaction: content, its bytes, addresses, extended equivalent *)
BadView(e) ==
  LET c == TxContent(e.tx)  x == Extended(e.tx) IN
  IF e.out # "ok" THEN "view: " \o e.out
  ELSE IF e.content # c THEN "wrong content"
  ELSE IF HexToBytes(e.bytes) # ContentBytes(e.tx) THEN "wrong content bytes"
  ELSE IF e.ext # x.V THEN "wrong extended equivalent"
  ELSE IF e.extcontent # c THEN "extended equivalent has another content"
  ELSE IF e.from # c.Sender \/ e.fromtype # c.SenderType \/ e.to # c.Recipient \/ e.totype # c.RecipientType THEN "wrong parties"
  ELSE IF e.value # c.Value \/ e.fee # c.Fee THEN "wrong amount"
  ELSE IF e.after # e.tx THEN "looking at a transaction altered it"
  ELSE IF "holds" \in DOMAIN e /\ Signer(e.tx).ok # e.holds
       THEN (IF e.holds THEN "the extended equivalent is not signed" ELSE "still signed after an alteration") ELSE ""
JudgeWallet(pub, e) ==
  CASE e.ev = "wallet" -> Verdict(BadWallet(e), e.pub)
    [] e.ev = "sign" -> Verdict(BadSign(pub, e), pub)
    [] e.ev = "view" -> Verdict(BadView(e), pub)
(* C40 *)
JudgeView(q, e) == Verdict(IF e.type # e.tx.T THEN "wrong transaction type" ELSE BadView(e), q)

(* C39: the model state maps wallets to [seed, pub]; a generated wallet has the seed its private key shows *)
StartKeys(e) == <<>>
AfterKeys(m, e) == IF e.ev = "make" /\ e.out = "ok" THEN Append(m, [seed |-> e.priv, pub |-> e.pub]) ELSE m
BadMake(m, e) ==
  IF e.out # "ok" THEN "making a wallet: " \o e.out
  ELSE LET pr == HexToBytes(e.priv)  sd == Take(pr, 32) IN
       IF Len(pr) # 64 \/ HexToBytes(e.pub) # Drop(pr, 32) \/ HexToBytes(e.pub) # Ed25519Public(sd) THEN "private and public key do not match"
       ELSE IF e.seed # "" /\ HexToBytes(e.seed) # sd THEN "wallet of another seed"
       ELSE IF ~e.kept THEN "deriving altered the seed"
       ELSE IF e.seed = "" /\ \E i \in DOMAIN m : m[i].pub = e.pub THEN "a generated wallet repeats another" ELSE ""
BadAsk(m, e) ==
  LET w == m[e.id + 1] IN
  IF e.out # "ok" THEN "asking a wallet: " \o e.out
  ELSE CASE e.what = "address" -> IF e.r # KeyAddress(w.pub) THEN "wrong address" ELSE ""
         [] e.what = "key" -> IF e.r # w.pub THEN "wrong public key" ELSE ""
         [] e.what = "sign" ->
              IF Signer(e.r) # [ok |-> TRUE, key |-> w.pub, addr |-> KeyAddress(w.pub)] THEN "signed by somebody else"
              ELSE IF ~e.same THEN "signing again gives another signature" ELSE ""
JudgeKeys(m, e) == Verdict(IF e.ev = "make" THEN BadMake(m, e) ELSE BadAsk(m, e), AfterKeys(m, e))

BadPeer(e) ==
  CASE e.ev = "psign" -> IF e.out # "ok" THEN "signing: " \o e.out
                         ELSE IF ~IsPeerSigned(e.pub, e.before, e.after) THEN "not signed as it should be" ELSE ""
    [] e.ev = "pverify" ->
         IF e.out # "ok" THEN "verifying: " \o e.out
         ELSE IF e.valid # PeerValid(e.p.PeerAddressHeader) THEN (IF e.valid THEN "accepts what was not signed" ELSE "refuses what was signed")
         ELSE IF e.after # e.p THEN "verifying altered the address" ELSE ""
    [] e.ev = "peerid" -> IF e.out # "ok" \/ HexToBytes(e.id) # Take(Blake2b256(HexToBytes(e.key)), 16) THEN "wrong peer id" ELSE ""
JudgePeer(q, e) == Verdict(BadPeer(e), q)
=============================================================================
