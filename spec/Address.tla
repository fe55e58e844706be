------------------------------- MODULE Address -------------------------------
(* User friendly addresses: texts are sequences of character codes.            *)
EXTENDS Integers, Sequences, SequencesExt

Alphabet == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57,
              65, 66, 67, 68, 69, 70, 71, 72, 74, 75, 76, 77, 78, 80, 81, 82, 83, 84, 85, 86, 88, 89>>
AlphaIndex == [c \in {Alphabet[i] : i \in 1..32} |-> (CHOOSE i \in 1..32 : Alphabet[i] = c) - 1]
IsDigitChar(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
SpaceChar == 32

(* IBAN check: the first four characters move to the end, letters count from   *)
(* A = 10, and the number read in base 10 is taken modulo 97.                   *)
CheckChar(acc, c) ==
  IF acc < 0 THEN -1
  ELSE IF IsDigitChar(c) THEN (10 * acc + c - 48) % 97
  ELSE IF IsUpper(c) THEN (100 * acc + c - 55) % 97
  ELSE IF IsLower(c) THEN (100 * acc + c - 87) % 97
  ELSE -1
(* -1: there are other characters *)
Remainder97(s) == FoldLeft(CheckChar, 0, SubSeq(s, 5, Len(s)) \o SubSeq(s, 1, 4))

(* 20 bytes as 32 groups of 5 bits, most significant first *)
BitOf(bs, i) == (bs[(i \div 8) + 1] \div (2 ^ (7 - (i % 8)))) % 2
Group(bs, j) == 16 * BitOf(bs, 5 * j) + 8 * BitOf(bs, 5 * j + 1) + 4 * BitOf(bs, 5 * j + 2) + 2 * BitOf(bs, 5 * j + 3) + BitOf(bs, 5 * j + 4)
Base32(bs) == [j \in 1..((8 * Len(bs)) \div 5) |-> Alphabet[Group(bs, j - 1) + 1]]
CharBit(cs, i) == (AlphaIndex[cs[(i \div 5) + 1]] \div (2 ^ (4 - (i % 5)))) % 2
UnBase32(cs) ==
  [k \in 1..((5 * Len(cs)) \div 8) |->
     LET at(i) == CharBit(cs, 8 * (k - 1) + i) IN
     128 * at(0) + 64 * at(1) + 32 * at(2) + 16 * at(3) + 8 * at(4) + 4 * at(5) + 2 * at(6) + at(7)]

N == 78
Q == 81
CheckDigits(data) ==
  LET c == 98 - Remainder97(<<N, Q, 48, 48>> \o data) IN <<48 + (c \div 10), 48 + (c % 10)>>
Compact(addr) == <<N, Q>> \o CheckDigits(Base32(addr)) \o Base32(addr)
(* groups of four separated by single spaces *)
Grouped(s) == FlattenSeq([g \in 1..(Len(s) \div 4) |-> (IF g = 1 THEN <<>> ELSE <<SpaceChar>>) \o SubSeq(s, 4 * g - 3, 4 * g)])
EncodeAddress(addr) == Grouped(Compact(addr))

Squeeze(s) == SelectSeq(s, LAMBDA c : c # SpaceChar)
ValidCompact(c) ==
  /\ Len(c) = 36 /\ c[1] = N /\ c[2] = Q
  /\ \A i \in 5..36 : c[i] \in DOMAIN AlphaIndex
  /\ Remainder97(c) = 1
DecodeAddress(s) ==
  LET c == Squeeze(s) IN
  IF ValidCompact(c) THEN [ok |-> TRUE, addr |-> UnBase32(SubSeq(c, 5, 36))] ELSE [ok |-> FALSE, addr |-> <<>>]
(* IBANs have no lower case; whether check characters may be is left open *)
OddCheck(s) == LET c == Squeeze(s) IN Len(c) >= 4 /\ (IsLower(c[3]) \/ IsLower(c[4]))
=============================================================================
