------------------------------- MODULE MCWire -------------------------------
(* The layouts of the chain objects checked on small objects: an object is     *)
(* encoded, then its bytes are cut off one by one from the end, or one of them *)
(* is replaced.                                                                *)
EXTENDS Wire, FiniteSets
CONSTANTS Damage, Kinds

RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN "" ELSE x \o Rep(x, n - 1)
Prev == Rep("0b", 32)
H1 == Rep("01", 32)
H2 == Rep("fe", 32)
BitSets == {[Len |-> "0", Bits |-> ""], [Len |-> "3", Bits |-> "bf"], [Len |-> "9", Bits |-> "0180"]}
(* repeat bits 0101 with padding bits set: two hashes *)
Interlinks == {[Repeats |-> [Len |-> "0", Bits |-> ""], Compressed |-> <<>>],
               [Repeats |-> [Len |-> "4", Bits |-> "5f"], Compressed |-> <<H1, H2>>],
               [Repeats |-> [Len |-> "2", Bits |-> "c0"], Compressed |-> <<>>]}
Paths == {[Branches |-> [Len |-> "0", Bits |-> ""], Hashes |-> <<>>], [Branches |-> [Len |-> "2", Bits |-> "40"], Hashes |-> <<H1, H2>>]}

(* one value of each schema, and every value that differs from it in one place *)
RECURSIVE Base(_)
Base(s) ==
  CASE s.k = "u" -> "1"
    [] s.k = "bool" -> TRUE
    [] s.k = "bytes" -> Rep("5a", s.n)
    [] s.k = "blob" -> "c0de"
    [] s.k = "seq" -> <<Base(s.e)>>
    [] s.k = "ptr" -> <<Base(s.e)>>
    [] s.k = "struct" -> FoldLeft(LAMBDA r, f : (f[1] :> Base(f[2])) @@ r, <<>>, s.f)
    [] s.k = "variant" -> [T |-> s.m[1].t, V |-> Base(s.m[1].s)]
    [] s.k = "bitset" -> [Len |-> "3", Bits |-> "bf"]
    [] s.k = "interlink" -> [Repeats |-> [Len |-> "4", Bits |-> "5f"], Compressed |-> <<H1, H2>>]
    [] s.k = "mpath" -> [Branches |-> [Len |-> "1", Bits |-> "80"], Hashes |-> <<H2>>]
RECURSIVE Vary(_)
Vary(s) ==
  CASE s.k = "u" -> {"0", Rep("ff", s.n)}
    [] s.k = "bool" -> {FALSE}
    [] s.k = "bytes" -> {Rep("00", s.n), Rep("ff", s.n)}
    [] s.k = "blob" -> {"", Rep("80", 255)}
    [] s.k = "seq" -> {<<>>} \cup {<<Base(s.e), x>> : x \in Vary(s.e)}
    [] s.k = "ptr" -> {<<>>} \cup {<<x>> : x \in Vary(s.e)}
    [] s.k = "struct" -> UNION {{[Base(s) EXCEPT ![s.f[i][1]] = x] : x \in Vary(s.f[i][2])} : i \in DOMAIN s.f}
    [] s.k = "variant" -> UNION {{[T |-> s.m[i].t, V |-> x] : x \in {Base(s.m[i].s)} \cup Vary(s.m[i].s)} : i \in DOMAIN s.m}
    [] s.k = "bitset" -> BitSets
    [] s.k = "interlink" -> Interlinks
    [] s.k = "mpath" -> Paths
AllKinds == <<HeaderS, InterlinkS(Prev), BodyS, BlockS(Prev), BasicTxS, ExtendedTxS, TxS, TxContentS, AccountS, PrunedS, HashS, SigProofS>>
(* refers to the same object: what decoding an interlink works out is left out *)
RECURSIVE Plain(_, _)
Plain(s, v) ==
  CASE s.k = "interlink" -> [Repeats |-> v.Repeats, Compressed |-> v.Compressed]
    [] s.k = "struct" -> FoldLeft(LAMBDA r, f : (f[1] :> Plain(f[2], v[f[1]])) @@ r, <<>>, s.f)
    [] OTHER -> v

VARIABLES n, v, B, how
vars == <<n, v, B, how>>
S == AllKinds[n]
Init == /\ n \in Kinds /\ v \in {Base(AllKinds[n])} \cup Vary(AllKinds[n])
        /\ B = Enc(AllKinds[n], v).b /\ how = "whole"
Cut == how # "damaged" /\ B # <<>> /\ B' = SubSeq(B, 1, Len(B) - 1) /\ how' = "cut" /\ UNCHANGED <<n, v>>
Replace == /\ how = "whole" /\ v = Base(S)
           /\ \E i \in 1..Len(B), x \in Damage : B[i] # x /\ B' = [B EXCEPT ![i] = x]
           /\ how' = "damaged" /\ UNCHANGED <<n, v>>
Next == Cut \/ Replace
Spec == Init /\ [][Next]_vars

D == Dec(S, B, 0)
Whole == how = "whole" => /\ D.ok /\ D.p = Len(B) /\ Plain(S, D.v) = v
                          /\ Enc(S, D.v) = Accept(B) /\ Size(S, v) = Len(B)
NoPrefix == how = "cut" => ~D.ok
(* a damaged object is refused or is another one, whose encoding these bytes are *)
Damaged == (how = "damaged" /\ D.ok) => Enc(S, D.v).b = Take(B, D.p) /\ (D.p = Len(B) => Plain(S, D.v) # v)
Prefixed == (S.k = "variant" /\ B # <<>> /\ ~HasVariant(S.m, B[1])) => ~D.ok
=============================================================================
