------------------------------- MODULE Compact -------------------------------
(* Difficulty targets in compact form ("n-bits"): the size of the target in    *)
(* bytes, counted with a leading zero byte when the top bit is set, followed   *)
(* by its three most significant bytes, padded with zeros on the right.        *)
EXTENDS Integers, Sequences, BigNat

BigEndian(t) == LET m == NToBytes(t, Len(t)) IN IF m[1] >= 128 THEN <<0>> \o m ELSE m
(* t > 0; the result is four bytes *)
CompactOf(t) ==
  LET m == BigEndian(t) IN
  <<Len(m)>> \o [i \in 1..3 |-> IF i <= Len(m) THEN m[i] ELSE 0]
(* what a compact form stands for *)
TargetOf(c) ==
  LET mant == <<c[2], c[3], c[4]>> IN
  NOfBytes(IF c[1] >= 3 THEN mant \o [i \in 1..(c[1] - 3) |-> 0] ELSE SubSeq(mant, 1, c[1]))

(* 2^240 *)
MaxTarget == [i \in 1..31 |-> IF i = 31 THEN 1 ELSE 0]
TargetOfDifficulty(d) == NDiv(MaxTarget, d)
=============================================================================
