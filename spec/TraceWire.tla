------------------------------ MODULE TraceWire ------------------------------
(* Judges recorded uses of the wire types: C19 chain objects, C20 interlinks,  *)
(* C21 signers, C22 messages.                                                  *)
EXTENDS TraceCodec

StakingS == ST(<< <<"ValidatorKey", FIX(96)>>, <<"RewardAddress", OPT(FIX(20))>>, <<"ProofOfKnowledge", FIX(48)>> >>)
(* hashes before the first listed one of an interlink are the previous-block hash, *)
(* as far as it is known: the decoder of a whole block may or may not fill it in   *)
PrevOf(e) ==
  IF "prev" \in DOMAIN e THEN e.prev
  ELSE IF e.ty = "block" /\ e.out = "ok" /\ e.ev = "dec" /\ e.v.Interlink.PrevHash = e.v.Header.PrevHash THEN e.v.Header.PrevHash
  ELSE Zero32Hex
WireS(e) ==
  CASE e.ty = "header" -> HeaderS
    [] e.ty = "body" -> BodyS
    [] e.ty = "block" -> BlockS(PrevOf(e))
    [] e.ty = "interlink" -> InterlinkS(PrevOf(e))
    [] e.ty = "basictx" -> BasicTxS
    [] e.ty = "exttx" -> ExtendedTxS
    [] e.ty = "txcontent" -> TxContentS
    [] e.ty = "wraptx" -> WrapTxS
    [] e.ty = "basic" -> BasicAccountS
    [] e.ty = "vesting" -> VestingAccountS
    [] e.ty = "htlc" -> HTLCAccountS
    [] e.ty = "wrapaccount" -> ST(<< <<"Account", AccountS>> >>)
    [] e.ty = "pruned" -> PrunedS
    [] e.ty = "hash" -> HashS
    [] e.ty = "sigproof" -> SigProofS
    [] e.ty = "mpath" -> MPathS
    [] e.ty = "bitset" -> BitSetS
    [] e.ty = "peeraddr" -> PeerAddrS
    [] e.ty = "netaddr" -> NetAddrS
    [] e.ty = "staking" -> StakingS

JudgeWire(q, e) == Verdict(BadCodec(WireS(e), e), q)

----------------------------------------------------------------------------
(* C20 *)
BadInterlink(e) ==
  LET B == HexToBytes(e["in"])  D == DecInterlink(B, 0, e.prev) IN
  IF e.out \notin {"ok", "err"} THEN "interlink: " \o e.out
  ELSE IF D.ok # (e.out = "ok") THEN "interlink: wrong verdict"
  ELSE IF ~D.ok THEN ""
  ELSE IF e.n # D.p THEN "interlink: consumed a wrong number of bytes"
  ELSE IF e.v # D.v THEN "interlink: wrong hashes"
  ELSE IF e.reout # "ok" \/ e.re # BytesToHex(Take(B, D.p)) THEN "interlink: does not encode to the same bytes"
  ELSE IF e.sizeout # "ok" \/ e.size # D.p THEN "interlink: wrong size"
  ELSE ""
JudgeInterlink(q, e) ==
  Verdict(CASE e.ev = "idec" -> BadInterlink(e) [] e.ev = "enc" -> BadEnc(InterlinkS(e.prev), e), q)

----------------------------------------------------------------------------
(* C21 *)
BadSigner(e) ==
  LET a == SignerAddress(e.v) IN
  IF e.out # "ok" \/ e.rout # "ok" THEN "signer: " \o e.out \o " " \o e.rout
  ELSE IF e.addr # a THEN "wrong signer address"
  ELSE IF e.pub # KeyAddress(e.v.PublicKey) THEN "wrong address of the public key"
  ELSE IF e.v.MerklePath.Hashes = <<>> /\ e.addr # e.pub THEN "empty path: signer is not the key's address"
  ELSE IF e.root # BytesToHex(ComputeRoot(HexToBytes(e.leaf), e.v.MerklePath)) THEN "wrong Merkle root"
  ELSE IF e.enc # "ok" \/ e.dec # "ok" THEN "proof does not survive encoding"
  ELSE IF e.after # a THEN "signer changed by encoding and decoding"
  ELSE IF e.v2 # e.v THEN "proof altered"
  ELSE ""
JudgeSigner(q, e) == Verdict(BadSigner(e), q)

----------------------------------------------------------------------------
(* C22 *)
BadMsg(e) ==
  LET t == IntOf(e.ty)  E == EncMessage(t, e.v) IN
  IF e.mty # e.ty THEN "message reports a wrong type"
  ELSE IF ~E.ok THEN (IF e.out = "err" THEN "" ELSE "unencodable message not refused: " \o e.out)
  ELSE IF e.out # "ok" THEN "encodable message refused: " \o e.out
  ELSE IF e.b # BytesToHex(E.b) THEN "wrong bytes"
  ELSE IF e.dout # "ok" THEN "own payload not decoded: " \o e.dout
  ELSE IF e.dkind # e.kind THEN "decoded as another kind"
  ELSE IF e.dty # e.ty THEN "decoded message reports another type"
  ELSE IF e.dv # e.v THEN "decoded message differs"
  ELSE ""
SmallType(h) == NLt(Num(h), NOfInt(256))
BadPayload(e) ==
  IF e["in"] = "altered" THEN "input altered"
  ELSE IF e.out \notin {"ok", "err"} THEN "payload: " \o e.out
  ELSE IF ~(SmallType(e.ty) /\ IsMessageType(IntOf(e.ty))) THEN (IF e.out = "err" THEN "" ELSE "unknown type accepted")
  ELSE LET t == IntOf(e.ty)
           B == HexToBytes(e["in"])
           s == IF t = 6 /\ e.out = "ok" /\ e.dv.Block.Interlink.PrevHash = e.dv.Block.Header.PrevHash
                THEN ST(<< <<"Block", BlockS(e.dv.Block.Header.PrevHash)>> >>) ELSE MessageS(t)
           D == DecAll(s, B) IN
  IF e.kb > 1024 + 4 * Len(B) THEN "allocation out of proportion"
  ELSE IF D.ok # (e.out = "ok") THEN (IF D.ok THEN "valid payload refused" ELSE "invalid payload accepted")
  ELSE IF ~D.ok THEN ""
  ELSE IF e.dkind # e.kind \/ e.dty # e.ty THEN "decoded as another kind"
  ELSE IF e.dv # D.v THEN "decoded a wrong message"
  ELSE IF e.reout # "ok" \/ e.re # BytesToHex(NToBytes(NOfInt(t), 8)) \o e["in"] THEN "message does not encode to the same bytes"
  ELSE ""
JudgeMessage(q, e) == Verdict(CASE e.ev = "msg" -> BadMsg(e) [] e.ev = "payload" -> BadPayload(e), q)
=============================================================================
