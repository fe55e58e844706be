------------------------------- MODULE Crypto -------------------------------
(* The cryptographic primitives are uninterpreted functions of the             *)
(* specification.  java/Crypto.java interprets them for trace validation       *)
(* (Blake2b-256 written from RFC 7693, Ed25519 from the JDK).     *)
EXTENDS Integers, Sequences
Blake2b256(b) == CHOOSE h \in Seq(0..255) : Len(h) = 32
Ed25519Verify(pub, msg, sig) == CHOOSE v \in BOOLEAN : TRUE
Ed25519Public(seed) == CHOOSE k \in Seq(0..255) : Len(k) = 32
=============================================================================
