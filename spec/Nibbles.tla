------------------------------- MODULE Nibbles -------------------------------
(* Nibble paths: sequences over 0..15; byte strings hold two nibbles per byte, *)
(* the high one first.                                                         *)
EXTENDS Integers, Sequences

Split(key) == [i \in 1..(2 * Len(key)) |-> IF i % 2 = 1 THEN key[(i + 1) \div 2] \div 16 ELSE key[i \div 2] % 16]
Join(nbs) == [i \in 1..(Len(nbs) \div 2) |-> 16 * nbs[2 * i - 1] + nbs[2 * i]]
(* only a path of the length of a key joins to one *)
KeyPath(nbs) == Len(nbs) = 40
(* two per byte; the last low nibble of an odd path is 0 *)
Pack(nbs) == [i \in 1..((Len(nbs) + 1) \div 2) |-> 16 * nbs[2 * i - 1] + (IF 2 * i <= Len(nbs) THEN nbs[2 * i] ELSE 0)]
Unpack(bs, n) == SubSeq(Split(bs), 1, n)
HexChars == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
HexForm(nbs) == [i \in 1..Len(nbs) |-> HexChars[nbs[i] + 1]]
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]
(* the longest common prefix *)
CommonLen(p, q) ==
  CHOOSE n \in 0..Len(p) : /\ n <= Len(q) /\ IsPrefixOf(SubSeq(p, 1, n), q)
                           /\ (n < Len(p) /\ n < Len(q)) => p[n + 1] # q[n + 1]
Common(p, q) == SubSeq(p, 1, CommonLen(p, q))
=============================================================================
