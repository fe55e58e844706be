----------------------------- MODULE SupplyCache -----------------------------
(* Concurrent supply queries over the shared checkpoint cache: entry i holds   *)
(* the supply before height i * K.  A query takes the lock, extends the cache  *)
(* interval by interval as far as it needs, releases the lock and walks the    *)
(* rest of the way on its own.  With UseLock = FALSE the same algorithm goes    *)
(* wrong, which shows that the properties can fail.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, K, MaxHeight, Queries, UseLock, Total, Initial, Speed

RECURSIVE Walk(_, _, _)
Step(s, h) == IF h = 0 THEN s ELSE s + (Total - s) \div Speed
(* from s, over heights from..to-1 *)
Walk(s, from, to) == IF from >= to THEN s ELSE Walk(Step(s, from), from + 1, to)
Supply(h) == Walk(Initial, 0, h + 1)

VARIABLES cache, lock, pc, want, idx, sup, answers
vars == <<cache, lock, pc, want, idx, sup, answers>>
NoOne == "none"
Init == /\ cache = <<Initial>> /\ lock = NoOne
        /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> 0]
        /\ idx = [t \in Threads |-> 0] /\ sup = [t \in Threads |-> 0]
        /\ answers = [t \in Threads |-> <<>>]
Ask(t) == /\ pc[t] = "idle" /\ Len(answers[t]) < Queries
          /\ \E h \in 0..MaxHeight : want' = [want EXCEPT ![t] = h]
          /\ pc' = [pc EXCEPT ![t] = "lock"]
          /\ UNCHANGED <<cache, lock, idx, sup, answers>>
Acquire(t) == /\ pc[t] = "lock" /\ (UseLock => lock = NoOne)
              /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "look"]
              /\ UNCHANGED <<cache, want, idx, sup, answers>>
EndI(t) == want[t] \div K
Look(t) == /\ pc[t] = "look"
           /\ LET i == IF Len(cache) - 1 < EndI(t) THEN Len(cache) - 1 ELSE EndI(t) IN
              /\ idx' = [idx EXCEPT ![t] = i] /\ sup' = [sup EXCEPT ![t] = cache[i + 1]]
           /\ pc' = [pc EXCEPT ![t] = "extend"]
           /\ UNCHANGED <<cache, lock, want, answers>>
Extend(t) == /\ pc[t] = "extend" /\ idx[t] < EndI(t)
             /\ LET s == Walk(sup[t], idx[t] * K, idx[t] * K + K) IN
                /\ cache' = Append(cache, s) /\ sup' = [sup EXCEPT ![t] = s]
             /\ idx' = [idx EXCEPT ![t] = @ + 1]
             /\ UNCHANGED <<lock, pc, want, answers>>
Release(t) == /\ pc[t] = "extend" /\ idx[t] = EndI(t)
              /\ lock' = NoOne /\ pc' = [pc EXCEPT ![t] = "walk"]
              /\ UNCHANGED <<cache, want, idx, sup, answers>>
Answer(t) == /\ pc[t] = "walk" /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ answers' = [answers EXCEPT ![t] = Append(@, <<want[t], Walk(sup[t], EndI(t) * K, want[t] + 1)>>)]
             /\ UNCHANGED <<cache, lock, want, idx, sup>>
Work(t) == Acquire(t) \/ Look(t) \/ Extend(t) \/ Release(t) \/ Answer(t)
Next == \E t \in Threads : Ask(t) \/ Work(t)
Done == \A t \in Threads : pc[t] = "idle" /\ Len(answers[t]) = Queries
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Acquire(t)) /\ WF_vars(Work(t))

CacheRight == \A i \in 1..Len(cache) : cache[i] = Walk(Initial, 0, (i - 1) * K)
AnswersRight == \A t \in Threads : \A i \in 1..Len(answers[t]) : answers[t][i][2] = Supply(answers[t][i][1])
Exclusive == UseLock => Cardinality({t \in Threads : pc[t] \in {"look", "extend"}}) <= 1
NoDeadlock == ENABLED Next \/ Done
CacheGrows == [][Len(cache') >= Len(cache) /\ SubSeq(cache', 1, Len(cache)) = cache]_vars
EveryQueryAnswered == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
Monotone == \A a, b \in 0..MaxHeight : a <= b => Supply(a) <= Supply(b) /\ Supply(b) <= Total
Perms == Permutations(Threads)
=============================================================================
