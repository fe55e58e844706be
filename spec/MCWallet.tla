------------------------------ MODULE MCWallet ------------------------------
(* A wallet signs a transaction or a peer address; then fields are altered,    *)
(* one after the other; anybody verifies at any time.  Signatures are perfect: *)
(* one is a hash of the key and the bytes signed.                              *)
EXTENDS Wallet
CONSTANTS MaxAlterations, Kinds

RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN "" ELSE x \o Rep(x, n - 1)
K1 == Rep("11", 32)
K2 == Rep("22", 32)
Other == Rep("5b", 64)

SigBy(pub, msg) == LET h == BytesToHex(Blake2b256(HexToBytes(pub) \o msg)) IN h \o h
PerfectVerify(pub, msg, sig) == sig = SigBy(pub, msg)

VARIABLES kind, obj, orig, key, alts
vars == <<kind, obj, orig, key, alts>>

A1 == Rep("a1", 20)
A2 == Rep("a2", 20)
TxFields == [Data |-> {"", "00", "0000"}, Sender |-> {A1, A2}, SenderType |-> {"0", "1"}, Recipient |-> {A1, A2}, RecipientType |-> {"0", "2"},
             Value |-> {"0", "1", "100"}, Fee |-> {"0", "1"}, ValidityStartHeight |-> {"0", "1000000"}, NetworkID |-> {"1", "2a"}, Flags |-> {"0", "1"}]
BasicFields == [SenderPubKey |-> {K1, K2}, Recipient |-> {A1, A2}, Value |-> {"0", "1", "100"}, Fee |-> {"0", "1"},
                ValidityStartHeight |-> {"0", "1000000"}, NetworkID |-> {"1", "2a"}, Signature |-> {Rep("5a", 64), Other}]
PeerFields == [Protocol |-> {"0", "1"}, Services |-> {"0", "1", "100"}, Timestamp |-> {"0", "1", "100000000"},
               PublicKey |-> {K1, K2}, Signature |-> {Rep("5a", 64), Other}, Distance |-> {"0", "1"}]
Fields == CASE kind = "ext" -> TxFields [] kind = "basic" -> BasicFields [] kind = "peer" -> PeerFields
(* one starting value of every field *)
First == CASE kind = "ext" -> [f \in DOMAIN TxFields |-> CHOOSE x \in TxFields[f] : TRUE] @@ [Proof |-> ""]
           [] kind = "basic" -> [[f \in DOMAIN BasicFields |-> CHOOSE x \in BasicFields[f] : TRUE] EXCEPT !.Signature = Other]
           [] kind = "peer" -> [[f \in DOMAIN PeerFields |-> CHOOSE x \in PeerFields[f] : TRUE] EXCEPT !.Signature = Other]
Tx(o) == [T |-> IF kind = "basic" THEN 0 ELSE 1, V |-> o]
Init == /\ kind \in Kinds /\ obj = First /\ orig = First /\ key = "" /\ alts = 0
Change(f, x) == obj[f] # x /\ obj' = [obj EXCEPT ![f] = x]
(* before signing anything can be written into the fields *)
Prepare == key = "" /\ alts < MaxAlterations /\ alts' = alts + 1
           /\ \E f \in DOMAIN Fields : \E x \in Fields[f] : Change(f, x)
           /\ UNCHANGED <<kind, orig, key>>
Sign == /\ key = "" /\ kind # "peer" /\ MaySign(K1, Tx(obj)) /\ key' = K1
        /\ LET sig == SigBy(K1, ContentBytes(Tx(obj))) IN
           obj' = IF kind = "basic" THEN [obj EXCEPT !.Signature = sig] ELSE [obj EXCEPT !.Proof = FullProof(K1, sig)]
        /\ orig' = obj' /\ alts' = 0 /\ UNCHANGED kind
SignPeer == /\ key = "" /\ kind = "peer" /\ key' = K1
            /\ obj' = [obj EXCEPT !.PublicKey = K1, !.Signature = SigBy(K1, PeerBytes(obj))]
            /\ orig' = obj' /\ alts' = 0 /\ UNCHANGED kind
Alter == /\ key # "" /\ alts < MaxAlterations /\ alts' = alts + 1
         /\ \/ \E f \in DOMAIN Fields : \E x \in Fields[f] : Change(f, x)
            \/ kind = "ext" /\ \E k \in {K1, K2}, s \in {SigBy(K1, ContentBytes(Tx(orig))), Other} : Change("Proof", FullProof(k, s))
            \/ kind = "ext" /\ Change("Proof", "")
         /\ UNCHANGED <<kind, orig, key>>
Next == Prepare \/ Sign \/ SignPeer \/ Alter
Spec == Init /\ [][Next]_vars

Same(fs) == \A f \in fs : obj[f] = orig[f]
(* C23: the signature holds exactly while content, key and signature are the signed ones *)
TxBound == key # "" /\ kind # "peer" =>
  (Signer(Tx(obj)).ok <=> obj = orig)
SignsForItself == key # "" /\ kind # "peer" /\ obj = orig => IsSigned(K1, Tx(orig), Tx(obj))
(* a basic transaction and its extended equivalent say the same and are signed alike *)
Equivalent == kind = "basic" =>
  LET x == Extended(Tx(obj)) IN TxContent(x) = TxContent(Tx(obj)) /\ Signer(x) = Signer(Tx(obj))
(* C24: everything but the distance is bound *)
PeerBound == key # "" /\ kind = "peer" => (PeerValid(obj) <=> Same(DOMAIN PeerFields \ {"Distance"}))
=============================================================================
