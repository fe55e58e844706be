------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: little-endian base-256 digit sequences without *)
(* leading (trailing in the sequence) zeros; <<>> is zero.  TLC integers have   *)
(* only 32 bits, amounts have 64 and targets 256.                               *)
(* java/BigNat.java overrides the operators marked (J) with equal, faster ones; *)
(* MCBigNat checks both the definitions and the overrides.                      *)
EXTENDS Integers, Sequences, Bytes

RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s

Dig(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
MaxOf(a, b) == IF a > b THEN a ELSE b

N0 == <<>>
N1 == <<1>>

RECURSIVE NOfIntR(_)
NOfIntR(i) == IF i = 0 THEN <<>> ELSE <<i % 256>> \o NOfIntR(i \div 256)
(* (J) *)
NOfInt(i) == NOfIntR(i)

RECURSIVE NToIntR(_)
NToIntR(a) == IF a = <<>> THEN 0 ELSE a[1] + 256 * NToIntR(Tail(a))
(* (J) only for a < 2^31 *)
NToInt(a) == NToIntR(a)

Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
(* (J) big-endian bytes to number and back (padded to n bytes) *)
NOfBytes(b) == Strip(Rev(b))
NToBytes(a, n) == Rev([i \in 1..n |-> Dig(a, i)])

(* (J) numbers are written in traces as hex strings of any length *)
NOfHex(s) == NOfBytes(HexToBytes(IF Len(s) % 2 = 1 THEN "0" \o s ELSE s))

RECURSIVE CarryAt(_, _, _)
CarryAt(a, b, i) == IF i = 0 THEN 0 ELSE (Dig(a, i) + Dig(b, i) + CarryAt(a, b, i - 1)) \div 256
(* (J) *)
NAdd(a, b) ==
  Strip([i \in 1..(MaxOf(Len(a), Len(b)) + 1) |-> (Dig(a, i) + Dig(b, i) + CarryAt(a, b, i - 1)) % 256])

RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) ==
  IF i = 0 THEN TRUE
  ELSE IF Dig(a, i) # Dig(b, i) THEN Dig(a, i) < Dig(b, i)
  ELSE LeqFrom(a, b, i - 1)
(* (J) *)
NLeq(a, b) == LeqFrom(a, b, MaxOf(Len(a), Len(b)))
NLt(a, b) == NLeq(a, b) /\ a # b
NMin(a, b) == IF NLeq(a, b) THEN a ELSE b

RECURSIVE BorrowAt(_, _, _)
BorrowAt(a, b, i) == IF i = 0 THEN 0 ELSE IF Dig(a, i) - Dig(b, i) - BorrowAt(a, b, i - 1) < 0 THEN 1 ELSE 0
(* (J) a - b, defined for b <= a *)
NSub(a, b) ==
  Strip([i \in 1..Len(a) |-> (256 + Dig(a, i) - Dig(b, i) - BorrowAt(a, b, i - 1)) % 256])
NMonus(a, b) == IF NLeq(a, b) THEN N0 ELSE NSub(a, b)

RECURSIVE MulDigit(_, _, _)
MulDigit(a, d, c) ==
  IF a = <<>> THEN NOfIntR(c)
  ELSE <<(a[1] * d + c) % 256>> \o MulDigit(Tail(a), d, (a[1] * d + c) \div 256)
RECURSIVE NMulR(_, _)
NMulR(a, b) == IF b = <<>> THEN <<>> ELSE NAdd(Strip(MulDigit(a, b[1], 0)), Strip(<<0>> \o NMulR(a, Tail(b))))
(* (J) *)
NMul(a, b) == NMulR(a, b)

(* (J) quotient, for b > 0: schoolbook division, most significant digit first *)
RECURSIVE DivStep(_, _, _, _)
DivStep(a, b, i, r) ==
  IF i = 0 THEN [q |-> <<>>, r |-> r]
  ELSE LET cur == Strip(<<a[i]>> \o r)
           d   == CHOOSE x \in 0..255 : NLeq(NMul(NOfIntR(x), b), cur) /\ ~NLeq(NMul(NOfIntR(x + 1), b), cur)
           rem == NSub(cur, NMul(NOfIntR(d), b))
           sub == DivStep(a, b, i - 1, rem)
       IN [q |-> sub.q \o <<d>>, r |-> sub.r]
NDiv(a, b) == Strip(DivStep(a, b, Len(a), <<>>).q)
(* (J) *)
NMod(a, b) == NSub(a, NMul(NDiv(a, b), b))

RECURSIVE NSumR(_)
NSumR(s) == IF s = <<>> THEN N0 ELSE NAdd(Head(s), NSumR(Tail(s)))
(* (J) sum of a sequence of numbers *)
NSum(s) == NSumR(s)

MaxU64 == <<255,255,255,255,255,255,255,255>>
MaxU32 == <<255,255,255,255>>
=============================================================================
