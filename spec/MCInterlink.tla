----------------------------- MODULE MCInterlink -----------------------------
(* The interlink as a reader that takes one repeat bit at a time: the machine  *)
(* produces entry after entry; FreshCounts of Beserial.tla gives the same list *)
(* in closed form.  And the other direction: compressing the list it produced  *)
(* reads the same fresh hashes again.                                          *)
EXTENDS Beserial, FiniteSets

CONSTANTS MaxN, Hashes, Prev

VARIABLES bits, fresh, list, last
vars == <<bits, fresh, list, last>>
Init == bits = <<>> /\ fresh = <<>> /\ list = <<>> /\ last = Prev
ReadNew(h) == /\ bits' = Append(bits, 0) /\ fresh' = Append(fresh, h)
              /\ last' = h /\ list' = Append(list, h)
Repeat == /\ bits' = Append(bits, 1) /\ list' = Append(list, last) /\ UNCHANGED <<fresh, last>>
Next == Len(bits) < MaxN /\ (Repeat \/ \E h \in Hashes : ReadNew(h))
Spec == Init /\ [][Next]_vars

(* packed most significant bit first, as on the wire *)
Packed == [j \in 1..CeilDiv8(Len(bits)) |->
             LET at(i) == IF 8 * (j - 1) + i + 1 <= Len(bits) THEN bits[8 * (j - 1) + i + 1] ELSE 0 IN
             128 * at(0) + 64 * at(1) + 32 * at(2) + 16 * at(3) + 8 * at(4) + 4 * at(5) + 2 * at(6) + at(7)]
Counts == FreshCounts(Packed, Len(bits))
ClosedForm ==
  LET c == Counts IN \A i \in 1..Len(list) : list[i] = IF c[i] = 0 THEN Prev ELSE fresh[c[i]]
ReadsExactly == Len(fresh) = Cardinality({i \in 1..Len(bits) : bits[i] = 0})
(* entry i repeats its predecessor whenever its bit is set *)
RepeatsPredecessor == \A i \in 1..Len(list) : bits[i] = 1 => list[i] = (IF i = 1 THEN Prev ELSE list[i - 1])
=============================================================================
