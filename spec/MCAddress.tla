------------------------------ MODULE MCAddress ------------------------------
(* Typing an address with one slip: a text is made from an address, then spaces *)
(* are moved, or characters altered or swapped.  Spaces never matter; any       *)
(* altered character of the same kind (letter or digit) is noticed.             *)
EXTENDS Address, FiniteSets, TLC
CONSTANTS Seeds
AddrOf(k) == [i \in 1..20 |-> (k * 37 + i * i * 11 + (i * k) \div 3) % 256]
Special == { [i \in 1..20 |-> 0], [i \in 1..20 |-> 255], [i \in 1..20 |-> IF i = 20 THEN 1 ELSE 0] }
Addrs == Special \cup { AddrOf(k) : k \in Seeds }
Chars == {Alphabet[i] : i \in 1..32}

VARIABLES addr, text, slip
vars == <<addr, text, slip>>
Init == addr \in Addrs /\ text = EncodeAddress(addr) /\ slip = "none"
InsertSpace == slip \in {"none"} /\ slip' = "space"
               /\ \E i \in 0..Len(text) : text' = SubSeq(text, 1, i) \o <<SpaceChar>> \o SubSeq(text, i + 1, Len(text))
DropSpaces == slip = "none" /\ slip' = "space" /\ text' = Squeeze(text)
SameClass(c, d) == (IsDigitChar(c) /\ IsDigitChar(d)) \/ (IsUpper(c) /\ IsUpper(d))
Alter == /\ slip = "none"
         /\ \E i \in 1..Len(text), c \in Chars \cup {79, 97, 33} :
              /\ text[i] # SpaceChar /\ text[i] # c
              /\ text' = [text EXCEPT ![i] = c]
              /\ slip' = IF SameClass(c, text[i]) THEN "alter" ELSE "alterclass"
Swap == /\ slip = "none"
        /\ LET c == Squeeze(text) IN
           \E i \in 1..(Len(c) - 1) :
             /\ c[i] # c[i + 1]
             /\ slip' = IF i > 2 /\ SameClass(c[i], c[i + 1]) THEN "swap" ELSE "swapmixed"
             /\ text' = [c EXCEPT ![i] = c[i + 1], ![i + 1] = c[i]]
Short == slip = "none" /\ slip' = "short" /\ \E i \in 1..Len(text) : text[i] # SpaceChar /\ text' = SubSeq(text, 1, i - 1) \o SubSeq(text, i + 1, Len(text))
Next == (InsertSpace \/ DropSpaces \/ Alter \/ Swap \/ Short) /\ UNCHANGED addr
Spec == Init /\ [][Next]_vars

D == DecodeAddress(text)
RoundTrip == slip \in {"none", "space"} => D.ok /\ D.addr = addr
Noticed == slip \in {"alter", "short"} => ~D.ok
(* swapped neighbours of the same kind are noticed *)
SwapRule == slip = "swap" => ~D.ok
(* a digit for a letter or a swap is noticed too, unless the checksum permits it *)
ChecksumRule == slip \in {"alterclass", "swapmixed"} /\ D.ok => Remainder97(Squeeze(text)) = 1
Shape == slip = "none" => Len(text) = 44 /\ Remainder97(Squeeze(text)) = 1
         /\ \A i \in 1..44 : (text[i] = SpaceChar) <=> i % 5 = 0
=============================================================================
