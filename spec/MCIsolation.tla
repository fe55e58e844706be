----------------------------- MODULE MCIsolation -----------------------------
(* Goroutines that call operations at the same time.  A call copies what it    *)
(* reads into scratch memory (fetch), computes there, and delivers the result. *)
(* Every goroutine has an object of its own that it changes and reads, and all *)
(* read one common object that nobody changes.  C34: a result is what the      *)
(* operation gives alone on the object, and no two goroutines use one cell at  *)
(* the same time unless both only read it.                                     *)
(*   Scratch "own" / "shared": one scratch cell per call or one for all        *)
(*   Lazy: the first reader of the common object stores a digest in it         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Ops, Scratch, Lazy, Vals

Digest(x) == 10 * x + 1
VARIABLES own, common, cache, scratch, pc, arg, left, results
vars == <<own, common, cache, scratch, pc, arg, left, results>>
Cell(p) == IF Scratch = "own" THEN p ELSE "all"
Init == /\ own = [p \in Procs |-> 0] /\ common = 2 /\ cache = 0
        /\ scratch = [c \in {Cell(p) : p \in Procs} |-> 0]
        /\ pc = [p \in Procs |-> "idle"] /\ arg = [p \in Procs |-> <<"none", 0>>]
        /\ left = [p \in Procs |-> Ops] /\ results = [p \in Procs |-> <<>>]
Call(p) == /\ pc[p] = "idle" /\ left[p] > 0
           /\ \E a \in {<<"read", 0>>, <<"common", 0>>} \cup {<<"write", v>> : v \in Vals} : arg' = [arg EXCEPT ![p] = a]
           /\ pc' = [pc EXCEPT ![p] = "fetch"] /\ left' = [left EXCEPT ![p] = @ - 1]
           /\ UNCHANGED <<own, common, cache, scratch, results>>
Fetch(p) == /\ pc[p] = "fetch"
            /\ scratch' = [scratch EXCEPT ![Cell(p)] = CASE arg[p][1] = "read" -> own[p] [] arg[p][1] = "common" -> common [] OTHER -> arg[p][2]]
            /\ cache' = IF Lazy /\ arg[p][1] = "common" /\ cache = 0 THEN Digest(common) ELSE cache
            /\ pc' = [pc EXCEPT ![p] = "compute"] /\ UNCHANGED <<own, common, arg, left, results>>
Compute(p) == /\ pc[p] = "compute" /\ scratch' = [scratch EXCEPT ![Cell(p)] = Digest(@)]
              /\ pc' = [pc EXCEPT ![p] = "deliver"] /\ UNCHANGED <<own, common, cache, arg, left, results>>
(* what the call gives when nothing else runs *)
Alone(p) == Digest(CASE arg[p][1] = "read" -> own[p] [] arg[p][1] = "common" -> common [] OTHER -> arg[p][2])
Deliver(p) == /\ pc[p] = "deliver"
              /\ results' = [results EXCEPT ![p] = Append(@, <<scratch[Cell(p)], Alone(p)>>)]
              /\ own' = IF arg[p][1] = "write" THEN [own EXCEPT ![p] = arg[p][2]] ELSE own
              /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<common, cache, scratch, arg, left>>
Next == \E p \in Procs : Call(p) \/ Fetch(p) \/ Compute(p) \/ Deliver(p)
Spec == Init /\ [][Next]_vars

Undisturbed == \A p \in Procs : \A i \in DOMAIN results[p] : results[p][i][1] = results[p][i][2]
(* cells the next step of a goroutine uses, and whether it writes them *)
Uses(p) ==
  CASE pc[p] = "fetch" ->
         {<<"scratch", Cell(p), TRUE>>} \cup
         (CASE arg[p][1] = "read" -> {<<"own", p, FALSE>>}
            [] arg[p][1] = "common" -> {<<"common", "", FALSE>>} \cup (IF Lazy THEN {<<"cache", "", cache = 0>>} ELSE {})
            [] OTHER -> {})
    [] pc[p] = "compute" -> {<<"scratch", Cell(p), TRUE>>}
    [] pc[p] = "deliver" -> {<<"scratch", Cell(p), FALSE>>} \cup (IF arg[p][1] = "write" THEN {<<"own", p, TRUE>>} ELSE {})
    [] OTHER -> {}
NoRace == \A p, q \in Procs : p # q =>
            \A u \in Uses(p), v \in Uses(q) : u[1] = v[1] /\ u[2] = v[2] => ~u[3] /\ ~v[3]
CommonKept == [][common' = common]_vars
=============================================================================
