----------------------------- MODULE MCMessages -----------------------------
(* The message codec of Wire.tla checked exhaustively on short payloads: a     *)
(* receiver gets a payload byte by byte under a type.                          *)
EXTENDS Wire
CONSTANTS MaxLen, Alphabet
VARIABLES t, B
Types == {MessageSchemas[i].t : i \in 1..Len(MessageSchemas)}
Init == t \in Types /\ B = <<>>
Next == Len(B) < MaxLen /\ \E x \in Alphabet : B' = Append(B, x) /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, B>>
D(T) == DecAll(MessageS(T), B)
RoundTrip == D(t).ok => EncMessage(t, D(t).v) = Accept(NToBytes(NOfInt(t), 8) \o B)
(* a payload that is complete is not complete any more with one byte more or less *)
Exact == [][D(t).ok => ~DecAll(MessageS(t), B').ok]_<<t, B>>
(* the envelope tells the types apart *)
Distinct == D(t).ok => \A T \in Types \ {t} : D(T).ok => EncMessage(T, D(T).v) # EncMessage(t, D(t).v)
=============================================================================
