------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences over 0..255.  Traces carry them as hex strings. *)
(* java/Bytes.java overrides the operators marked (J) with equal, faster ones. *)
EXTENDS Integers, Sequences

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexVal(c) == (CHOOSE d \in 1..16 : HexDigits[d] = c) - 1

(* (J) *)
HexToBytes(s) ==
  [i \in 1..(Len(s) \div 2) |->
     16 * HexVal(SubSeq(s, 2*i-1, 2*i-1)) + HexVal(SubSeq(s, 2*i, 2*i))]

RECURSIVE BytesToHexFrom(_, _)
BytesToHexFrom(b, i) ==
  IF i > Len(b) THEN ""
  ELSE HexDigits[(b[i] \div 16) + 1] \o HexDigits[(b[i] % 16) + 1] \o BytesToHexFrom(b, i + 1)
(* (J) *)
BytesToHex(b) == BytesToHexFrom(b, 1)

Take(b, n) == SubSeq(b, 1, n)
Drop(b, n) == SubSeq(b, n + 1, Len(b))

RECURSIVE JoinFrom(_, _)
JoinFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o JoinFrom(ss, i + 1)
(* (J) concatenation of a sequence of sequences *)
JoinAll(ss) == JoinFrom(ss, 1)

Zeros(n) == [i \in 1..n |-> 0]

(* (J) bit i (0 = most significant) of byte x *)
BitOfByte(x, i) == (x \div (2 ^ (7 - i))) % 2
(* bit i (0-based, most significant bit of the first byte first) of a byte string *)
BitAt(b, i) == BitOfByte(b[(i \div 8) + 1], i % 8)
=============================================================================
