------------------------------ MODULE MCNibbles ------------------------------
(* Laws of nibble paths, for all pairs of short paths; the second one grows    *)
(* and the common prefix can only grow with it.                                *)
EXTENDS Nibbles, FiniteSets
CONSTANTS Digits, MaxLen
VARIABLES p, q
Paths(n) == UNION {[1..k -> Digits] : k \in 0..n}
Init == p \in Paths(MaxLen) /\ q = <<>>
Next == Len(q) < MaxLen /\ \E d \in Digits : q' = Append(q, d) /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, q>>
PackLossless == Unpack(Pack(p), Len(p)) = p
JoinSplit == Len(p) % 2 = 0 => Split(Join(p)) = p /\ Join(Split(Join(p))) = Join(p)
HexOne == Len(HexForm(p)) = Len(p)
CommonIsCommon == IsPrefixOf(Common(p, q), p) /\ IsPrefixOf(Common(p, q), q)
CommonLongest == \A r \in Paths(MaxLen) : IsPrefixOf(r, p) /\ IsPrefixOf(r, q) => Len(r) <= Len(Common(p, q))
CommonSym == Common(p, q) = Common(q, p)
PrefixExact == IsPrefixOf(p, q) <=> Common(p, q) = p
Monotone == [][IsPrefixOf(Common(p, q), Common(p, q'))]_<<p, q>>
=============================================================================
