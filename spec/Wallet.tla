------------------------------- MODULE Wallet -------------------------------
(* Signing transactions and peer addresses.  Verify(pub, message, signature)   *)
(* is Ed25519 verification; a wallet is its public key.  Transactions are      *)
(* variants [T, V] as in Wire.tla.                                             *)
EXTENDS Wire
CONSTANT Verify(_, _, _)

ContentBytes(tx) == LET e == Enc(TxContentS, TxContent(tx)) IN IF e.ok THEN e.b ELSE <<>>
ProofOf(v) == DecAll(SigProofS, HexToBytes(v.Proof))
(* who a transaction is signed by: [ok, key, addr]; ok only if the signature is right *)
Nobody == [ok |-> FALSE, key |-> "", addr |-> ""]
Signer(tx) ==
  IF tx.T = 0
  THEN IF Verify(tx.V.SenderPubKey, ContentBytes(tx), tx.V.Signature)
       THEN [ok |-> TRUE, key |-> tx.V.SenderPubKey, addr |-> KeyAddress(tx.V.SenderPubKey)] ELSE Nobody
  ELSE LET p == ProofOf(tx.V) IN
       IF p.ok /\ Verify(p.v.PublicKey, ContentBytes(tx), p.v.Signature)
       THEN [ok |-> TRUE, key |-> p.v.PublicKey, addr |-> SignerAddress(p.v)] ELSE Nobody

MaySign(pub, tx) == IF tx.T = 1 THEN TRUE ELSE tx.V.SenderPubKey = pub
(* tx2 is tx signed by pub and nothing else *)
IsSigned(pub, tx, tx2) ==
  /\ tx2.T = tx.T
  /\ IF tx.T = 0 THEN tx2.V = [tx.V EXCEPT !.Signature = tx2.V.Signature] ELSE tx2.V = [tx.V EXCEPT !.Proof = tx2.V.Proof]
  /\ Signer(tx2) = [ok |-> TRUE, key |-> pub, addr |-> KeyAddress(pub)]

(* the extended transaction that says and proves the same *)
FullProof(key, sig) == key \o "00" \o sig
Extended(tx) ==
  IF tx.T = 1 THEN tx
  ELSE LET c == TxContent(tx) IN
       [T |-> 1, V |-> [Data |-> c.Data, Sender |-> c.Sender, SenderType |-> c.SenderType, Recipient |-> c.Recipient,
                        RecipientType |-> c.RecipientType, Value |-> c.Value, Fee |-> c.Fee,
                        ValidityStartHeight |-> c.ValidityStartHeight, NetworkID |-> c.NetworkID, Flags |-> c.Flags,
                        Proof |-> FullProof(tx.V.SenderPubKey, tx.V.Signature)]]

----------------------------------------------------------------------------
(* peer addresses *)
PeerSignedS == ST(<< <<"Protocol", U8>>, <<"Services", U32>>, <<"Timestamp", U64>> >>)
PeerBytes(h) == Enc(PeerSignedS, [Protocol |-> h.Protocol, Services |-> h.Services, Timestamp |-> h.Timestamp]).b
PeerValid(h) == Verify(h.PublicKey, PeerBytes(h), h.Signature)
IsPeerSigned(pub, p, p2) ==
  LET h == p.PeerAddressHeader  h2 == p2.PeerAddressHeader IN
  /\ p2.Detail = p.Detail
  /\ h2 = [h EXCEPT !.PublicKey = pub, !.Signature = h2.Signature]
  /\ PeerValid(h2)
=============================================================================
