-------------------------------- MODULE Paths --------------------------------
(* Paths are strings of hex digits or sequences.                               *)
EXTENDS Integers, Sequences
RECURSIVE CommonFrom(_, _, _)
CommonFrom(p, q, n) ==
  IF n < Len(p) /\ n < Len(q) /\ SubSeq(p, n + 1, n + 1) = SubSeq(q, n + 1, n + 1) THEN CommonFrom(p, q, n + 1) ELSE n
(* (J) length of the common prefix *)
CommonLen(p, q) == CommonFrom(p, q, 0)
Digits16 == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Ascii16 == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
(* (J) a string of hex digits as bytes *)
HexAscii(s) == [i \in 1..Len(s) |-> Ascii16[CHOOSE d \in 1..16 : Digits16[d] = SubSeq(s, i, i)]]
=============================================================================
