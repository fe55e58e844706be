----------------------------- MODULE MCBeserial -----------------------------
(* The codec of Beserial.tla itself, checked exhaustively: a reader receives a *)
(* byte string one byte at a time.  For every schema and every byte string of  *)
(* a small alphabet:                                                           *)
(*  Canonical   what is decoded encodes to exactly the consumed bytes           *)
(*  RoundTrip   the encoding of the decoded value decodes to it                 *)
(*  Stable      once enough bytes for a value are there, more do not change it  *)
(*  SizeLaw     the size of the decoded value is the consumed count             *)
(*  Final       what is no encoding is none whatever follows, and what stops     *)
(*              too early did so before its last byte came                       *)
(*  Completable what is refused as stopping too early is the beginning of an     *)
(*              encoding; only values of defective types have no encoding        *)
EXTENDS Beserial

CONSTANTS MaxLen, Alphabet

U(n) == [k |-> "u", n |-> n]
I(n) == [k |-> "i", n |-> n]
Blob(lt) == [k |-> "blob", lt |-> lt]
Seq_(lt, e) == [k |-> "seq", lt |-> lt, e |-> e]
Arr(n, e) == [k |-> "arr", n |-> n, e |-> e]
Ptr(o, e) == [k |-> "ptr", opt |-> o, e |-> e]
Struct(f) == [k |-> "struct", f |-> f]
Bool == [k |-> "bool"]

Leaves == { U(1), U(2), U(4), I(1), I(2), Bool, [k |-> "bytes", n |-> 0], [k |-> "bytes", n |-> 2], Blob(1), Blob(2),
            [k |-> "bitset"], [k |-> "netaddr"], [k |-> "le24"], [k |-> "cbyte"], [k |-> "bad"], Blob(0) }
Some == { U(1), I(1), Bool, Blob(1), [k |-> "cbyte"], [k |-> "bad"] }
Schemas ==
  Leaves
  \cup { Seq_(lt, e) : lt \in {0, 1, 2}, e \in Some }
  \cup { Arr(n, e) : n \in 0..2, e \in Some }
  \cup { Ptr(o, e) : o \in BOOLEAN, e \in Some }
  \cup { Struct(<< <<"F0", e>>, <<"F1", f>> >>) : e \in Some \cup {Ptr(TRUE, U(1)), Seq_(1, U(1))}, f \in Some }
  \cup { Struct(<<>>), Seq_(1, Struct(<< <<"F0", U(1)>>, <<"F1", Ptr(TRUE, U(1))>> >>)),
         Struct(<< <<"F0", Struct(<< <<"F0", Ptr(TRUE, Blob(1))>> >>)>>, <<"F1", Seq_(1, Arr(2, U(1)))>> >>),
         Seq_(1, Arr(2, I(2))), Seq_(2, Ptr(FALSE, U(2))),
         [k |-> "variant", m |-> <<[t |-> 0, s |-> U(1)], [t |-> 1, s |-> Struct(<< <<"F0", Blob(1)>>, <<"F1", Bool>> >>)]>>],
         [k |-> "interlink", prev |-> "00"] }

VARIABLES s, B
vars == <<s, B>>
Init == s \in Schemas /\ B = <<>>
Next == Len(B) < MaxLen /\ \E x \in Alphabet : B' = Append(B, x) /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

D == Dec(s, B, 0)
Canonical == D.ok => /\ D.p <= Len(B)
                     /\ Enc(s, D.v) = Accept(Take(B, D.p))
RoundTrip == D.ok => LET E == Enc(s, D.v) IN E.ok /\ Dec(s, E.b, 0) = Yes(D.v, Len(E.b))
SizeLaw == D.ok => Size(s, D.v) = D.p
FullLaw == DecAll(s, B).ok = (D.ok /\ D.p = Len(B))
Stable == [][D.ok => Dec(s, B', 0) = D]_vars
Why(d) == IF d.ok THEN "ok" ELSE d.why
Final == [][LET e == Dec(s, B', 0) IN
            /\ (Why(D) \in {"bad", "notag", "kind"} => Why(e) = Why(D))
            /\ (Why(e) = "eof" => Why(D) \in {"eof", "any"})]_vars
SmallBytes == Len(B) <= 4 /\ \A i \in 1..Len(B) : B[i] <= 2
Completable == /\ (Why(D) = "eof" /\ SmallBytes /\ ~Defective(s)) => Dec(s, B \o Zeros(1600), 0).ok
               /\ Why(D) \in {"notag", "kind"} => Defective(s)
CauseLaw == D.ok => Causes(s, D.v) = {}
(* Not vacuous: some schema of each kind is decoded. *)
=============================================================================
