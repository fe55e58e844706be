------------------------------ MODULE Beserial ------------------------------
(* The "big-endian serialization" of beserial/doc.go as functions of a schema: *)
(*   Enc(s, v)    the encoding of value v, or a refusal                        *)
(*   Dec(s, B, p) the value encoded in B from position p on, or a refusal      *)
(* Schemas are records with a kind k:                                          *)
(*   u n / i n     unsigned / two's-complement number of n bytes               *)
(*   bool, bytes n (fixed byte array), blob lt (byte slice or string with a    *)
(*   length tag of lt bytes), arr n e, seq lt e, struct f (<<name, schema>>),  *)
(*   ptr opt e, bad (unsupported kind)                                         *)
(* and, for the types that encode themselves,                                  *)
(*   variant m (type byte selects the schema), bitset, interlink prev, mpath,  *)
(*   netaddr, peeraddr, le24 and cbyte (harness-defined 24-bit numbers).        *)
(* lt = 0 means: no length tag, the type cannot be encoded.                    *)
(* Values have the shape in which traces carry them: numbers and byte strings  *)
(* as hex, structs as records, optionals as sequences of length 0 or 1.        *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Bytes, BigNat

RECURSIVE TrimZero(_)
TrimZero(h) == IF Len(h) > 1 /\ SubSeq(h, 1, 1) = "0" THEN TrimZero(SubSeq(h, 2, Len(h))) ELSE h
HexOfNat(a) == IF a = N0 THEN "0" ELSE TrimZero(BytesToHex(NToBytes(a, Len(a))))

(* 256^n *)
Pow256(n) == Strip([i \in 1..(n + 1) |-> IF i = n + 1 THEN 1 ELSE 0])
Num(h) == NOfHex(h)
IntOf(h) == NToInt(NOfHex(h))
HexOfInt(i) == HexOfNat(NOfInt(i))

IsNeg(h) == SubSeq(h, 1, 1) = "-"
SignedToNat(h, n) ==
  IF IsNeg(h) THEN NSub(Pow256(n), NOfHex(SubSeq(h, 2, Len(h)))) ELSE NOfHex(h)
NatToSigned(a, n) ==
  IF NLeq(Pow256(n), NAdd(a, a)) THEN "-" \o HexOfNat(NSub(Pow256(n), a)) ELSE HexOfNat(a)

Refuse == [ok |-> FALSE, b |-> <<>>]
Accept(b) == [ok |-> TRUE, b |-> b]

CeilDiv8(n) == (n + 7) \div 8

EncBitSet(v) == Accept(<<IntOf(v.Len)>> \o HexToBytes(v.Bits))
HexSeqBytes(hs) == JoinAll([i \in 1..Len(hs) |-> HexToBytes(hs[i])])

PeerHeaderSchema ==
  [k |-> "struct", f |-> <<
    <<"Protocol", [k |-> "u", n |-> 1]>>, <<"Services", [k |-> "u", n |-> 4]>>,
    <<"Timestamp", [k |-> "u", n |-> 8]>>, <<"NetAddress", [k |-> "netaddr"]>>,
    <<"PublicKey", [k |-> "bytes", n |-> 32]>>, <<"Distance", [k |-> "u", n |-> 1]>>,
    <<"Signature", [k |-> "bytes", n |-> 64]>> >>]
PeerSrvSchema ==
  [k |-> "struct", f |-> <<
    <<"Host", [k |-> "blob", lt |-> 1]>>, <<"Port", [k |-> "u", n |-> 2]>>, <<"TLS", [k |-> "bool"]>> >>]
ProtoDumb == 0
ProtoWSS == 1
ProtoRTC == 2
ProtoWS == 4
HasSrv(proto) == proto \in {ProtoWS, ProtoWSS}
KnownProto(proto) == proto \in {ProtoDumb, ProtoWSS, ProtoRTC, ProtoWS}
IPLen(t) == CASE t = 0 -> 4 [] t = 1 -> 16 [] OTHER -> 0

VariantSchema(m, t) == m[CHOOSE i \in 1..Len(m) : m[i].t = t].s
HasVariant(m, t) == \E i \in 1..Len(m) : m[i].t = t

----------------------------------------------------------------------------
RECURSIVE Enc(_, _)
RECURSIVE EncSeq(_, _, _)
EncAll(parts) ==
  IF \A i \in 1..Len(parts) : parts[i].ok
  THEN Accept(JoinAll([i \in 1..Len(parts) |-> parts[i].b])) ELSE Refuse
EncSeq(e, vs, n) == EncAll([i \in 1..n |-> Enc(e, vs[i])])

EncLen(lt, n, rest) ==
  IF lt = 0 \/ ~rest.ok THEN Refuse
  ELSE IF ~NLt(NOfInt(n), Pow256(lt)) THEN Refuse
  ELSE Accept(NToBytes(NOfInt(n), lt) \o rest.b)

EncPeer(v) ==
  LET proto == IntOf(v.PeerAddressHeader.Protocol)
      h == Enc(PeerHeaderSchema, v.PeerAddressHeader) IN
  IF ~KnownProto(proto) \/ ~h.ok THEN Refuse
  ELSE IF ~HasSrv(proto) THEN (IF v.Detail = <<>> THEN h ELSE Refuse)
  ELSE IF v.Detail = <<>> THEN Refuse
  ELSE EncAll(<<h, Enc(PeerSrvSchema, v.Detail[1])>>)

Enc(s, v) ==
  CASE s.k = "u" -> Accept(NToBytes(Num(v), s.n))
    [] s.k = "i" -> Accept(NToBytes(SignedToNat(v, s.n), s.n))
    [] s.k = "bool" -> Accept(IF v THEN <<1>> ELSE <<0>>)
    [] s.k = "bytes" -> Accept(HexToBytes(v))
    [] s.k = "blob" -> EncLen(s.lt, Len(v) \div 2, Accept(HexToBytes(v)))
    [] s.k = "arr" -> EncSeq(s.e, v, s.n)
    [] s.k = "seq" -> EncLen(s.lt, Len(v), EncSeq(s.e, v, Len(v)))
    [] s.k = "struct" -> EncAll([i \in 1..Len(s.f) |-> Enc(s.f[i][2], v[s.f[i][1]])])
    [] s.k = "ptr" ->
         IF s.opt THEN (IF v = <<>> THEN Accept(<<0>>) ELSE EncAll(<<Accept(<<1>>), Enc(s.e, v[1])>>))
         ELSE IF v = <<>> THEN Refuse ELSE Enc(s.e, v[1])
    [] s.k = "bad" -> Refuse
    [] s.k = "variant" ->
         IF HasVariant(s.m, v.T) THEN EncAll(<<Accept(<<v.T>>), Enc(VariantSchema(s.m, v.T), v.V)>>) ELSE Refuse
    [] s.k = "bitset" -> EncBitSet(v)
    [] s.k = "interlink" -> EncAll(<<EncBitSet(v.Repeats), Accept(HexSeqBytes(v.Compressed))>>)
    [] s.k = "mpath" -> EncAll(<<EncBitSet(v.Branches), Accept(HexSeqBytes(v.Hashes))>>)
    [] s.k = "netaddr" ->
         IF IntOf(v.Type) > 3 \/ Len(v.IP) # 2 * IPLen(IntOf(v.Type)) THEN Refuse
         ELSE Accept(<<IntOf(v.Type)>> \o HexToBytes(v.IP))
    [] s.k = "peeraddr" -> EncPeer(v)
    [] s.k = "cbyte" -> Accept(<<IntOf(v), 0, 0>>)
    [] s.k = "le24" -> Accept(Rev(NToBytes(Num(v), 3)))

----------------------------------------------------------------------------
(* Decoding: p is the number of bytes already consumed. *)
(* Why an input is refused: its bytes are no encoding ("bad"), or they are one  *)
(* that stops too early ("eof"), or either answer will do ("any": a list that   *)
(* declares more elements than there are bytes left, a length no list can have, *)
(* a type that checks its bytes only once they are all there), or the type has  *)
(* no encoding ("notag": a list without length tag, "kind").                    *)
Not(why) == [ok |-> FALSE, v |-> "", p |-> 0, why |-> why]
No == Not("bad")
Eof == Not("eof")
Yes(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Has(B, p, n) == p + n <= Len(B)
At(B, p, n) == SubSeq(B, p + 1, p + n)

DecBitSet(B, p) ==
  IF ~Has(B, p, 1) THEN Eof
  ELSE LET n == B[p + 1]  m == CeilDiv8(n) IN
       IF ~Has(B, p + 1, m) THEN Eof
       ELSE Yes([Len |-> HexOfInt(n), Bits |-> BytesToHex(At(B, p + 1, m))], p + 1 + m)

HashAt(B, p, i) == BytesToHex(At(B, p + 32 * (i - 1), 32))

(* Entry i of an interlink repeats the entry before it (the previous-block hash *)
(* for the first) if repeat bit i is set, and is the next hash otherwise.       *)
FreshCounts(bits, n) ==
  FoldLeft(LAMBDA acc, i : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + 1 - BitAt(bits, i - 1)),
           <<>>, [i \in 1..n |-> i])
DecInterlink(B, p, prev) ==
  LET bs == DecBitSet(B, p) IN
  IF ~bs.ok THEN bs
  ELSE LET n == B[p + 1]
           bits == HexToBytes(bs.v.Bits)
           fresh == FreshCounts(bits, n)
           total == IF n = 0 THEN 0 ELSE fresh[n]
       IN IF ~Has(B, bs.p, 32 * total) THEN Eof
          ELSE LET comp == [j \in 1..total |-> HashAt(B, bs.p, j)]
               IN Yes([Repeats |-> bs.v,
                       Hashes |-> [i \in 1..n |-> IF fresh[i] = 0 THEN prev ELSE comp[fresh[i]]],
                       PrevHash |-> prev,
                       Compressed |-> comp],
                      bs.p + 32 * total)

DecMPath(B, p) ==
  LET bs == DecBitSet(B, p) IN
  IF ~bs.ok \/ ~Has(B, bs.p, 32 * B[p + 1]) THEN Eof
  ELSE Yes([Branches |-> bs.v, Hashes |-> [i \in 1..B[p + 1] |-> HashAt(B, bs.p, i)]],
           bs.p + 32 * B[p + 1])

DecNetAddr(B, p) ==
  IF ~Has(B, p, 1) THEN Eof
  ELSE IF B[p + 1] > 3 THEN No
  ELSE IF ~Has(B, p + 1, IPLen(B[p + 1])) THEN Eof
  ELSE LET n == IPLen(B[p + 1]) IN
       Yes([Type |-> HexOfInt(B[p + 1]), IP |-> BytesToHex(At(B, p + 1, n))], p + 1 + n)

RECURSIVE Dec(_, _, _)
DecBlob(B, p, n) == IF ~Has(B, p, n) THEN Eof ELSE Yes(BytesToHex(At(B, p, n)), p + n)
DecSome(e, n, B, p) ==
  FoldLeft(LAMBDA acc, i :
             IF ~acc.ok THEN acc
             ELSE LET d == Dec(e, B, acc.p) IN
                  IF d.ok THEN Yes(Append(acc.v, d.v), d.p) ELSE d,
           Yes(<<>>, p), [i \in 1..n |-> i])
(* n elements, 256 at a time *)
DecSeq(e, n, B, p) ==
  IF n <= 256 THEN DecSome(e, n, B, p)
  ELSE FoldLeft(LAMBDA acc, c :
             IF ~acc.ok THEN acc
             ELSE LET d == DecSome(e, IF c * 256 <= n THEN 256 ELSE n % 256, B, acc.p) IN
                  IF d.ok THEN Yes(acc.v \o d.v, d.p) ELSE d,
           Yes(<<>>, p), [c \in 1..((n + 255) \div 256) |-> c])
DecFields(f, B, p) ==
  FoldLeft(LAMBDA acc, fd :
             IF ~acc.ok THEN acc
             ELSE LET d == Dec(fd[2], B, acc.p) IN
                  IF d.ok THEN Yes((fd[1] :> d.v) @@ acc.v, d.p) ELSE d,
           Yes(<<>>, p), f)
(* the length prefix: refused when more elements are declared than bytes remain *)
NoSliceLen(n) == ~NLt(n, NOfBytes(<<128, 0, 0, 0, 0, 0, 0, 0>>))
DecLen(lt, B, p, more) ==
  IF lt = 0 THEN Not("notag")
  ELSE IF ~Has(B, p, lt) THEN Eof
  ELSE LET n == NOfBytes(At(B, p, lt)) IN
       IF ~NLeq(n, NOfInt(Len(B) - p - lt)) THEN Not(IF NoSliceLen(n) THEN "any" ELSE more) ELSE Yes(NToInt(n), p + lt)
DecPeer(B, p) ==
  LET h == Dec(PeerHeaderSchema, B, p) IN
  IF ~h.ok THEN h
  ELSE LET proto == IntOf(h.v.Protocol) IN
       IF ~KnownProto(proto) THEN No
       ELSE IF ~HasSrv(proto) THEN Yes([PeerAddressHeader |-> h.v, Detail |-> <<>>], h.p)
       ELSE LET d == Dec(PeerSrvSchema, B, h.p) IN
            IF d.ok THEN Yes([PeerAddressHeader |-> h.v, Detail |-> <<d.v>>], d.p) ELSE d

Dec(s, B, p) ==
  CASE s.k = "u" -> IF Has(B, p, s.n) THEN Yes(HexOfNat(NOfBytes(At(B, p, s.n))), p + s.n) ELSE Eof
    [] s.k = "i" -> IF Has(B, p, s.n) THEN Yes(NatToSigned(NOfBytes(At(B, p, s.n)), s.n), p + s.n) ELSE Eof
    [] s.k = "bool" -> IF ~Has(B, p, 1) THEN Eof ELSE IF B[p + 1] \in {0, 1} THEN Yes(B[p + 1] = 1, p + 1) ELSE No
    [] s.k = "bytes" -> DecBlob(B, p, s.n)
    [] s.k = "blob" -> LET n == DecLen(s.lt, B, p, "eof") IN IF n.ok THEN DecBlob(B, n.p, n.v) ELSE n
    [] s.k = "arr" -> DecSeq(s.e, s.n, B, p)
    [] s.k = "seq" -> LET n == DecLen(s.lt, B, p, "any") IN IF n.ok THEN DecSeq(s.e, n.v, B, n.p) ELSE n
    [] s.k = "struct" -> DecFields(s.f, B, p)
    [] s.k = "ptr" ->
         IF s.opt
         THEN IF ~Has(B, p, 1) THEN Eof
              ELSE IF B[p + 1] \notin {0, 1} THEN No
              ELSE IF B[p + 1] = 0 THEN Yes(<<>>, p + 1)
              ELSE LET d == Dec(s.e, B, p + 1) IN IF d.ok THEN Yes(<<d.v>>, d.p) ELSE d
         ELSE LET d == Dec(s.e, B, p) IN IF d.ok THEN Yes(<<d.v>>, d.p) ELSE d
    [] s.k = "bad" -> Not("kind")
    [] s.k = "variant" ->
         IF ~Has(B, p, 1) THEN Eof
         ELSE IF ~HasVariant(s.m, B[p + 1]) THEN No
         ELSE LET d == Dec(VariantSchema(s.m, B[p + 1]), B, p + 1) IN
              IF d.ok THEN Yes([T |-> B[p + 1], V |-> d.v], d.p) ELSE d
    [] s.k = "bitset" -> DecBitSet(B, p)
    [] s.k = "interlink" -> DecInterlink(B, p, s.prev)
    [] s.k = "mpath" -> DecMPath(B, p)
    [] s.k = "netaddr" -> DecNetAddr(B, p)
    [] s.k = "peeraddr" -> DecPeer(B, p)
    [] s.k = "cbyte" ->
         IF ~Has(B, p, 3) THEN Not(IF Has(B, p, 2) /\ B[p + 2] # 0 THEN "any" ELSE "eof")
         ELSE IF B[p + 2] = 0 /\ B[p + 3] = 0 THEN Yes(HexOfInt(B[p + 1]), p + 3) ELSE No
    [] s.k = "le24" -> IF Has(B, p, 3) THEN Yes(HexOfNat(Strip(At(B, p, 3))), p + 3) ELSE Eof

DecAll(s, B) == LET d == Dec(s, B, 0) IN IF d.ok /\ d.p = Len(B) THEN d ELSE No
Size(s, v) == Len(Enc(s, v).b)

(* types that have no encoding, or not for all of their values *)
RECURSIVE Defective(_)
Defective(s) ==
  CASE s.k = "bad" -> TRUE
    [] s.k = "blob" -> s.lt = 0
    [] s.k = "seq" -> s.lt = 0 \/ Defective(s.e)
    [] s.k \in {"arr", "ptr"} -> Defective(s.e)
    [] s.k = "struct" -> \E i \in 1..Len(s.f) : Defective(s.f[i][2])
    [] s.k = "variant" -> \E i \in 1..Len(s.m) : Defective(s.m[i].s)
    [] OTHER -> FALSE

(* all that keeps a value from being encoded *)
RECURSIVE Causes(_, _)
CausesOfAll(e, vs) == UNION {Causes(e, vs[i]) : i \in 1..Len(vs)}
Causes(s, v) ==
  CASE s.k \in {"blob", "seq"} /\ s.lt = 0 -> {"notag"} \cup (IF s.k = "seq" THEN CausesOfAll(s.e, v) ELSE {})
    [] s.k = "blob" -> IF Enc(s, v).ok THEN {} ELSE {"other"}
    [] s.k = "seq" -> CausesOfAll(s.e, v) \cup (IF NLt(NOfInt(Len(v)), Pow256(s.lt)) THEN {} ELSE {"other"})
    [] s.k = "arr" -> CausesOfAll(s.e, v)
    [] s.k = "struct" -> UNION {Causes(s.f[i][2], v[s.f[i][1]]) : i \in 1..Len(s.f)}
    [] s.k = "ptr" -> IF v = <<>> THEN (IF s.opt THEN {} ELSE {"nil"}) ELSE Causes(s.e, v[1])
    [] s.k = "variant" -> IF HasVariant(s.m, v.T) THEN Causes(VariantSchema(s.m, v.T), v.V) ELSE {"other"}
    [] OTHER -> IF Enc(s, v).ok THEN {} ELSE {"other"}
=============================================================================
