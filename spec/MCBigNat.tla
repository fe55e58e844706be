------------------------------ MODULE MCBigNat ------------------------------
(* Checks BigNat against TLC's own integers (and against the field laws on     *)
(* larger numbers).  Run once with and once without the Java overrides.        *)
EXTENDS BigNat, TLC
CONSTANT Pure
VARIABLES a, b
Small == IF Pure THEN {0, 1, 7, 255, 256, 1000} ELSE 0..40 \cup {255, 256, 257, 300, 511, 512, 1000, 4095, 4096}
Init == a \in Small /\ b \in Small
Next == UNCHANGED <<a, b>>
Cube(x) == IF Pure THEN NMul(NOfInt(x), NOfInt(x + 65000)) ELSE NMul(NMul(NOfInt(x), NOfInt(x + 65000)), NMul(NOfInt(x + 7), NOfInt(2000000011)))
Ok ==
  LET A == NOfInt(a)  B == NOfInt(b)  big == Cube(a)  big2 == Cube(b) IN
  /\ NToInt(A) = a
  /\ NAdd(A, B) = NOfInt(a + b)
  /\ NMul(A, B) = NOfInt(a * b)
  /\ NLeq(A, B) <=> a <= b
  /\ NLt(A, B) <=> a < b
  /\ a >= b => NSub(A, B) = NOfInt(a - b)
  /\ b > 0 => NDiv(A, B) = NOfInt(a \div b) /\ NMod(A, B) = NOfInt(a % b)
  /\ NSum(<<A, B, big>>) = NAdd(A, NAdd(B, big))
  /\ NSub(NAdd(big, big2), big2) = big
  /\ big2 # N0 => NDiv(NAdd(NMul(big, big2), NMod(A, big2)), big2) = big
  /\ NOfBytes(NToBytes(big, 20)) = big
  /\ NOfHex(BytesToHex(NToBytes(big, 20))) = big
  /\ HexToBytes(BytesToHex(<<a % 256, b % 256>>)) = <<a % 256, b % 256>>
  /\ JoinAll(<<A, B, A>>) = A \o B \o A
  /\ \A i \in 0..7 : BitOfByte(a % 256, i) = ((a % 256) \div 2^(7-i)) % 2
=============================================================================
