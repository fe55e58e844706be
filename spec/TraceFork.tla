------------------------------ MODULE TraceFork ------------------------------
(* Judges recorded histories of states forked from states (C42): every state   *)
(* is what the ledger gives for the blocks applied to it and to those below it *)
(* before it was forked, whatever happened to the others.                      *)
EXTENDS TraceGenesis

Levels(e) == [x \in {e.levels[i].id : i \in DOMAIN e.levels} |->
                LET i == CHOOSE j \in DOMAIN e.levels : e.levels[j].id = x IN e.levels[i]]
StartFork(e) == [s \in {0} |-> StateOf(e.levels[1].state)]

AfterFork(m, e, lv) ==
  CASE e.ev = "open" -> m
    [] e.ev = "root" -> m
    [] e.ev = "fork" -> (e.id :> m[e.from]) @@ m
    [] e.ev = "drop" -> [s \in DOMAIN m \ {e.id} |-> m[s]]
    [] e.ev = "flush" -> [m EXCEPT ![e.into] = m[e.id]]
    [] e.ev = "push" -> [m EXCEPT ![e.id] = IF Undefined(m[e.id], e) THEN StateOf(lv[e.id].state) ELSE Outcome(m[e.id], e).s]
(* states whose stored nodes may change *)
Touched(e) ==
  CASE e.ev \in {"open", "fork", "drop"} -> {}
    [] e.ev = "flush" -> {e.into}
    [] e.ev = "push" -> IF e.out = "ok" THEN {e.id} ELSE {}
    [] e.ev = "root" -> {e.id}
BadFork(m, e, lv, after) ==
  IF \E s \in DOMAIN lv : ~lv[s].readable THEN "a state cannot be read after: " \o e.ev
  ELSE IF DOMAIN lv # DOMAIN after THEN "harness: other states"
  ELSE IF e.ev = "push" /\ e.out \notin {"ok", "err"} THEN "block application: " \o e.out
  ELSE IF e.ev # "push" /\ e.out # "ok" THEN e.ev \o ": " \o e.out
  ELSE IF e.ev = "push" /\ ~Undefined(m[e.id], e) /\ Outcome(m[e.id], e).ok # (e.out = "ok")
       THEN (IF e.out = "ok" THEN "a block is accepted on a forked state although: " \o Outcome(m[e.id], e).why ELSE "a permitted block is refused on a forked state")
  ELSE IF \E s \in DOMAIN lv : StateOf(lv[s].state) # after[s] THEN "wrong accounts in a state after: " \o e.ev
  ELSE IF \E s \in DOMAIN lv \ Touched(e) : ~lv[s].same /\ ~(\E t \in Touched(e) : t < s /\ e.ev # "push")
       THEN "stored nodes of another state changed by: " \o e.ev
  ELSE IF e.ev = "root" /\ e.root # RootOf(after[e.id]) THEN "wrong root of a forked state"
  ELSE ""
JudgeFork(m, e) ==
  LET lv == Levels(e)  after == TLCEval(AfterFork(m, e, lv)) IN Verdict(BadFork(m, e, lv, after), after)
=============================================================================
