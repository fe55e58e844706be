----------------------------- MODULE MCRecords -----------------------------
(* Account records as they are stored: bytes by address, nothing for accounts  *)
(* that are as if never touched.  Storing, replacing and removing in any order *)
(* against the accounts last stored.                                           *)
EXTENDS Wire, FiniteSets
CONSTANTS Addrs, Balances

RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN "" ELSE x \o Rep(x, n - 1)
Basics == {[T |-> 0, V |-> [Value |-> b]] : b \in Balances}
Vestings == {[T |-> 1, V |-> [Value |-> b, Owner |-> Rep("5a", 20), VestingStart |-> s, VestingStepBlocks |-> "1",
                              VestingStepAmount |-> "1", VestingTotalAmount |-> t]] : b \in Balances, s \in {"0", "1"}, t \in {"1", "100"}}
Htlcs == {[T |-> 2, V |-> [Value |-> b, Sender |-> Rep("5a", 20), Recipient |-> Rep("00", 20),
                           Hash |-> [Algorithm |-> a, Bytes |-> Rep("00", 32)], HashCount |-> "1", Timeout |-> t, TotalAmount |-> "1"]]
            : b \in Balances, a \in {"1", "3"}, t \in {"0", "1"}}
Accounts == Basics \cup Vestings \cup Htlcs
Nobody == [T |-> 0, V |-> [Value |-> "0"]]
Record(a) == Enc(AccountS, a).b
Drops(a) == a.T = 0 /\ a.V.Value = "0"

VARIABLES stored, truth
vars == <<stored, truth>>
Init == stored = <<>> /\ truth = [a \in Addrs |-> Nobody]
PutRecord(f, a, x) == IF Drops(x) THEN [y \in DOMAIN f \ {a} |-> f[y]] ELSE (a :> Record(x)) @@ f
Store(a, x) == stored' = PutRecord(stored, a, x) /\ truth' = [truth EXCEPT ![a] = x]
Next == \E a \in Addrs, x \in Accounts \cup {Nobody} : Store(a, x)
Spec == Init /\ [][Next]_vars

Look(f, a) == IF a \in DOMAIN f THEN DecAll(AccountS, f[a]) ELSE Yes(Nobody, 0)
LooksUp == \A a \in Addrs : Look(stored, a).ok /\ Look(stored, a).v = truth[a]
NoEmptyRecord == \A a \in Addrs : a \in DOMAIN stored <=> truth[a] # Nobody
(* what is stored, and with it the root, depends on the accounts alone *)
Canonical == stored = FoldLeft(LAMBDA f, a : PutRecord(f, a, truth[a]), <<>>, SetToSeq(Addrs))
OthersKept == [][\A a \in Addrs : truth'[a] = truth[a] => Look(stored', a) = Look(stored, a)]_vars
(* equality is equality of records *)
Equal == \A a, b \in Addrs : truth[a] = truth[b] <=> Record(truth[a]) = Record(truth[b])
=============================================================================
