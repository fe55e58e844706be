-------------------------------- MODULE Wire --------------------------------
(* Layouts of the chain objects and peer-to-peer messages, and the hash-based  *)
(* constructions over them.                                                    *)
EXTENDS Beserial, Crypto

U8 == [k |-> "u", n |-> 1]
U16 == [k |-> "u", n |-> 2]
U32 == [k |-> "u", n |-> 4]
U64 == [k |-> "u", n |-> 8]
FIX(n) == [k |-> "bytes", n |-> n]
BOOL == [k |-> "bool"]
BLOB(lt) == [k |-> "blob", lt |-> lt]
SEQ(lt, e) == [k |-> "seq", lt |-> lt, e |-> e]
ST(f) == [k |-> "struct", f |-> f]
OPT(e) == [k |-> "ptr", opt |-> TRUE, e |-> e]

Zero32Hex == BytesToHex(Zeros(32))

HashS == ST(<< <<"Algorithm", U8>>, <<"Bytes", FIX(32)>> >>)
BitSetS == [k |-> "bitset"]
InterlinkS(prev) == [k |-> "interlink", prev |-> prev]
MPathS == [k |-> "mpath"]
SigProofS == ST(<< <<"PublicKey", FIX(32)>>, <<"MerklePath", MPathS>>, <<"Signature", FIX(64)>> >>)

BasicAccountS == ST(<< <<"Value", U64>> >>)
VestingAccountS == ST(<< <<"Value", U64>>, <<"Owner", FIX(20)>>, <<"VestingStart", U32>>,
  <<"VestingStepBlocks", U32>>, <<"VestingStepAmount", U64>>, <<"VestingTotalAmount", U64>> >>)
HTLCAccountS == ST(<< <<"Value", U64>>, <<"Sender", FIX(20)>>, <<"Recipient", FIX(20)>>, <<"Hash", HashS>>,
  <<"HashCount", U8>>, <<"Timeout", U32>>, <<"TotalAmount", U64>> >>)
AccountS == [k |-> "variant", m |-> << [t |-> 0, s |-> BasicAccountS], [t |-> 1, s |-> VestingAccountS],
                                       [t |-> 2, s |-> HTLCAccountS] >>]
PrunedS == ST(<< <<"Address", FIX(20)>>, <<"Account", ST(<< <<"Account", AccountS>> >>)>> >>)

BasicTxS == ST(<< <<"SenderPubKey", FIX(32)>>, <<"Recipient", FIX(20)>>, <<"Value", U64>>, <<"Fee", U64>>,
  <<"ValidityStartHeight", U32>>, <<"NetworkID", U8>>, <<"Signature", FIX(64)>> >>)
TxContentF == << <<"Data", BLOB(2)>>, <<"Sender", FIX(20)>>, <<"SenderType", U8>>, <<"Recipient", FIX(20)>>,
  <<"RecipientType", U8>>, <<"Value", U64>>, <<"Fee", U64>>, <<"ValidityStartHeight", U32>>,
  <<"NetworkID", U8>>, <<"Flags", U8>> >>
TxContentS == ST(TxContentF)
ExtendedTxS == ST(Append(TxContentF, <<"Proof", BLOB(2)>>))
TxS == [k |-> "variant", m |-> << [t |-> 0, s |-> BasicTxS], [t |-> 1, s |-> ExtendedTxS] >>]
WrapTxS == ST(<< <<"Tx", TxS>> >>)

HeaderS == ST(<< <<"Version", U16>>, <<"PrevHash", FIX(32)>>, <<"InterlinkHash", FIX(32)>>, <<"BodyHash", FIX(32)>>,
  <<"AccountsHash", FIX(32)>>, <<"NBits", U32>>, <<"Height", U32>>, <<"Timestamp", U32>>, <<"Nonce", U32>> >>)
BodyS == ST(<< <<"MinerAddr", FIX(20)>>, <<"ExtraData", BLOB(1)>>, <<"Txs", SEQ(2, WrapTxS)>>,
  <<"Pruned", SEQ(2, PrunedS)>> >>)
BlockS(prev) == ST(<< <<"Header", HeaderS>>, <<"Interlink", InterlinkS(prev)>>, <<"Body", OPT(BodyS)>> >>)

(* messages: the empty ones have no payload at all *)
PeerAddrS == [k |-> "peeraddr"]
NetAddrS == [k |-> "netaddr"]
EmptyS == ST(<<>>)
VersionS == ST(<< <<"Version", U32>>, <<"PeerAddress", PeerAddrS>>, <<"GenesisHash", FIX(32)>>, <<"HeadHash", FIX(32)>>,
  <<"ChallengeNonce", FIX(32)>>, <<"UserAgent", BLOB(1)>> >>)
InvS == ST(<< <<"Vectors", SEQ(2, ST(<< <<"Type", U32>>, <<"Hash", FIX(32)>> >>))>> >>)
MessageSchemas == <<
  [t |-> 0, s |-> VersionS], [t |-> 1, s |-> InvS], [t |-> 2, s |-> InvS], [t |-> 3, s |-> InvS], [t |-> 4, s |-> InvS],
  [t |-> 5, s |-> ST(<< <<"Locators", SEQ(2, FIX(32))>>, <<"MaxInvSize", U16>>, <<"Direction", U8>> >>)],
  [t |-> 6, s |-> ST(<< <<"Block", BlockS(Zero32Hex)>> >>)],
  [t |-> 7, s |-> ST(<< <<"BlockHeader", HeaderS>> >>)],
  [t |-> 8, s |-> ST(<< <<"Tx", WrapTxS>> >>)],
  [t |-> 9, s |-> EmptyS],
  [t |-> 20, s |-> ST(<< <<"Addresses", SEQ(2, PeerAddrS)>> >>)],
  [t |-> 21, s |-> ST(<< <<"ProtocolMask", U8>>, <<"ServiceMask", U32>>, <<"MaxResults", U16>> >>)],
  [t |-> 22, s |-> ST(<< <<"Nonce", U32>> >>)], [t |-> 23, s |-> ST(<< <<"Nonce", U32>> >>)],
  [t |-> 40, s |-> EmptyS],
  [t |-> 47, s |-> ST(<< <<"BlockHash", FIX(32)>>, <<"Addresses", SEQ(2, FIX(20))>> >>)],
  [t |-> 49, s |-> ST(<< <<"Address", FIX(20)>>, <<"Offset", U32>> >>)],
  [t |-> 60, s |-> EmptyS],
  [t |-> 61, s |-> ST(<< <<"BlockHeader", HeaderS>> >>)],
  [t |-> 90, s |-> ST(<< <<"PublicKey", FIX(32)>>, <<"Signature", FIX(64)>> >>)] >>
IsMessageType(t) == HasVariant(MessageSchemas, t)
MessageS(t) == VariantSchema(MessageSchemas, t)
EncMessage(t, v) ==
  LET e == Enc(MessageS(t), v) IN
  IF e.ok THEN Accept(NToBytes(NOfInt(t), 8) \o e.b) ELSE Refuse

----------------------------------------------------------------------------
(* Merkle paths: bit i set = the path node is the left sibling.                *)
ComputeRoot(leaf, path) ==
  LET bits == HexToBytes(path.Branches.Bits) IN
  FoldLeft(LAMBDA root, i :
             LET h == HexToBytes(path.Hashes[i]) IN
             Blake2b256(IF BitAt(bits, i - 1) = 1 THEN h \o root ELSE root \o h),
           Blake2b256(leaf), [i \in 1..Len(path.Hashes) |-> i])
SignerAddress(proof) == BytesToHex(Take(ComputeRoot(HexToBytes(proof.PublicKey), proof.MerklePath), 20))
KeyAddress(pubHex) == BytesToHex(Take(Blake2b256(HexToBytes(pubHex)), 20))

(* content of a transaction given as a variant *)
TxContent(tx) ==
  IF tx.T = 1
  THEN [Data |-> tx.V.Data, Sender |-> tx.V.Sender, SenderType |-> tx.V.SenderType, Recipient |-> tx.V.Recipient,
        RecipientType |-> tx.V.RecipientType, Value |-> tx.V.Value, Fee |-> tx.V.Fee,
        ValidityStartHeight |-> tx.V.ValidityStartHeight, NetworkID |-> tx.V.NetworkID, Flags |-> tx.V.Flags]
  ELSE [Data |-> "", Sender |-> KeyAddress(tx.V.SenderPubKey), SenderType |-> "0", Recipient |-> tx.V.Recipient,
        RecipientType |-> "0", Value |-> tx.V.Value, Fee |-> tx.V.Fee,
        ValidityStartHeight |-> tx.V.ValidityStartHeight, NetworkID |-> tx.V.NetworkID, Flags |-> "0"]
=============================================================================
