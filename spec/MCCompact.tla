------------------------------ MODULE MCCompact ------------------------------
(* Targets grow one by one in windows around the byte and top-bit boundaries   *)
(* (scaled by zero bytes below, up to 32 bytes).                               *)
EXTENDS Compact, TLC
CONSTANTS Window
Around == {1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777215, 16777216}
VARIABLES base, i, low
vars == <<base, i, low>>
(* the target: base + i, followed by low zero bytes *)
T(j) == NMul(NOfInt(base + j), [k \in 1..(low + 1) |-> IF k = low + 1 THEN 1 ELSE 0])
Init == base \in {IF x > Window THEN x - Window ELSE 1 : x \in Around} /\ i = 0 /\ low \in {0, 1, 2, 5, 28}
Next == i < 2 * Window /\ i' = i + 1 /\ UNCHANGED <<base, low>>
Spec == Init /\ [][Next]_vars
Fits == Len(T(i)) <= 32
C == CompactOf(T(i))
(* nothing above the bits below the three bytes is lost *)
Loss == LET back == TargetOf(C) IN
        /\ NLeq(back, T(i))
        /\ C[1] <= 3 => back = T(i)
        /\ C[1] > 3 => NLt(NSub(T(i), back), [k \in 1..(C[1] - 2) |-> IF k = C[1] - 2 THEN 1 ELSE 0])
Minimal == C[2] < 128 /\ (C[2] # 0 \/ C[3] >= 128)
Less(a, b) == \E k \in 1..4 : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
(* never smaller for a larger target: the next one, and the same with one added *)
Monotone == [][~Less(CompactOf(T(i')), C)]_vars
MonotoneFine == ~Less(CompactOf(NAdd(T(i), N1)), C)
DifficultyLaw == LET d == T(i)  q == TargetOfDifficulty(d) IN
  NLeq(NMul(q, d), MaxTarget) /\ NLt(MaxTarget, NMul(NAdd(q, N1), d))
=============================================================================
