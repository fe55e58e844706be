------------------------------ MODULE StateTree ------------------------------
(* The state tree with its real hashes: keys are 40 hex digits, values bytes.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bytes, Crypto, Paths

HLeaf(p, v) == BytesToHex(Blake2b256(<<255, 40>> \o HexAscii(p) \o HexToBytes(v)))
HBranch(p, ch) ==
  LET heads == SelectSeq(Digits16, LAMBDA d : d \in DOMAIN ch)
      kid(i) == <<Len(ch[heads[i]].s)>> \o HexAscii(ch[heads[i]].s) \o HexToBytes(ch[heads[i]].h)
  IN BytesToHex(Blake2b256(<<0, Len(p)>> \o HexAscii(p) \o <<Len(heads)>> \o JoinAll([i \in 1..Len(heads) |-> kid(i)])))
T == INSTANCE PMTree WITH LeafHash <- HLeaf, BranchHash <- HBranch, ZeroHash <- "", Root0 <- ""

EmptyMap == [k \in {} |-> ""]

(* the constants of the repository's own tests *)
ASSUME T!Root(EmptyMap) = "ab29e6dc16755d0071eba349ebda225d15e4f910cb474549c47e95cb85ecc4d6"
K0 == "0000000000000000000000000000000000000000"
K1 == "1000000000000000000000000000000000000000"
K2 == "1200000000000000000000000000000000000000"
ASSUME T!Root((K0 :> "000000000000000005") @@ (K1 :> "000000000000000037") @@ (K2 :> "00000000000" \o "34fb5e3"))
         = "c8a459ea666e3b027dbef89c00e7600d22c0a0c7ff8051a5e9687026d027c0f5"
=============================================================================
