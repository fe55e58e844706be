------------------------------ MODULE TraceTree ------------------------------
(* Histories of the state tree on stacks of node stores, and of plain node     *)
(* stores.  The model state is a sequence of contents, one per layer; each is  *)
(* what the layer shows.                                                       *)
EXTENDS TraceBase, StateTree

Nothing == ""

At(c, k) == IF k \in DOMAIN c THEN c[k] ELSE Nothing
StartTree(e) == [i \in 1..e.layers |-> EmptyMap]
(* all layers above layer i show what it shows when it changes (a tree is only written below an empty overlay) *)
AfterTree(m, e) ==
  CASE e.ev = "put" -> [i \in DOMAIN m |-> IF i < e.layer THEN m[i] ELSE T!PutMap(m[e.layer], e.key, e.val, Nothing)]
    [] e.ev = "flush" -> [m EXCEPT ![e.layer - 1] = m[e.layer]]
    [] OTHER -> m

BadOut(e) == IF e.out # "ok" THEN "tree operation: " \o e.out ELSE ""
BadChanged(m, e) ==
  IF e.ev = "put" /\ e.changed # T!Changes(m[e.layer], e.key, e.val, Nothing) THEN "change misreported" ELSE ""
(* most steps of a history over many keys are recorded without a look at the tree *)
Brief(e) == "brief" \in DOMAIN e
BadLook(after, e, i) ==
  IF Brief(e) THEN "" ELSE IF \E j \in DOMAIN e.look[i] : e.look[i][j][2] # At(after[i], e.look[i][j][1]) THEN "wrong value looked up" ELSE ""
BadRoot(after, e, i) == IF Brief(e) THEN "" ELSE IF e.root[i] # T!Root(after[i]) THEN "wrong root hash" ELSE ""
SeenNode(n) == IF n.t = "leaf" THEN <<n.at, "leaf", n.p, n.v>> ELSE <<n.at, "branch", n.p, {<<n.ch[j][1], n.ch[j][2]>> : j \in DOMAIN n.ch}>>
WantNode(n) == IF n.t = "leaf" THEN <<n.p, "leaf", n.p, n.v>> ELSE <<n.p, "branch", n.p, {<<n.ch[h].s, n.ch[h].h>> : h \in DOMAIN n.ch}>>
BadNodes(after, e, i) ==
  IF Brief(e) \/ ~e.dump THEN ""
  ELSE LET seen == {SeenNode(e.nodes[i][j]) : j \in DOMAIN e.nodes[i]}
           want == {WantNode(n) : n \in T!CanonNodes(after[i])} IN
       IF seen = want THEN ""
       ELSE IF want \ seen # {} THEN "stored nodes are not those of the canonical tree (missing or wrong)" ELSE "leftover nodes"
FirstBad(s) == LET bs == SelectSeq(s, LAMBDA x : x # "") IN IF bs = <<>> THEN "" ELSE bs[1]

Top(m) == Len(m)
JudgeMap(m, e) ==
  LET a == AfterTree(m, e) IN Verdict(IF e.out # "ok" THEN BadOut(e) ELSE FirstBad(<<BadChanged(m, e), BadLook(a, e, Top(m))>>), a)
JudgeRoot(m, e) ==
  LET a == AfterTree(m, e) IN Verdict(IF e.out # "ok" THEN BadOut(e) ELSE BadRoot(a, e, Top(m)), a)
JudgeStore(m, e) ==
  LET a == AfterTree(m, e) i == Top(m) IN
  Verdict(IF e.out # "ok" THEN BadOut(e) ELSE FirstBad(<<BadChanged(m, e), BadLook(a, e, i), BadRoot(a, e, i), BadNodes(a, e, i)>>), a)
JudgeLayers(m, e) ==
  LET a == AfterTree(m, e)
      per(i) == LET bad == FirstBad(<<BadLook(a, e, i), BadRoot(a, e, i), BadNodes(a, e, i)>>) IN
                IF bad = "" THEN "" ELSE "layer " \o ToString(i) \o ": " \o bad IN
  Verdict(IF e.out # "ok" THEN BadOut(e) ELSE FirstBad(<<BadChanged(m, e)>> \o [i \in DOMAIN m |-> per(i)]), a)

----------------------------------------------------------------------------
(* Plain nodes on layers: the model state is the stack of Overlay.tla.         *)
O == INSTANCE Overlay WITH None <- "-", NoDiff <- "."
KeysOf(e) == DOMAIN e.views[1]
StartPlain(e) == [i \in 1..e.layers |-> [k \in 1..e.keys |-> IF i = 1 THEN e.base[k] ELSE "."]]
AfterPlain(m, e) ==
  CASE e.ev = "write" -> O!Write(m, e.layer, e.key, e.val)
    [] e.ev = "flush" -> O!Flush(m, e.layer)
    [] OTHER -> m
JudgePlain(m, e) ==
  LET a == AfterPlain(m, e)
      bad == SelectSeq([i \in DOMAIN a |-> i], LAMBDA i : \E k \in DOMAIN a[i] : e.views[i][k] # O!ViewAt(a, i, k)) IN
  Verdict(IF e.out # "ok" THEN "store operation: " \o e.out
          ELSE IF bad # <<>> THEN "layer " \o ToString(bad[1]) \o " shows something else after " \o e.ev ELSE "", a)

(* C38: flushes that the lower store interrupts.  Which differences had been    *)
(* written is not seen; keeping them all in the model changes nothing as long   *)
(* as the lower layer is not written directly before the flush is completed.    *)
AfterPartial(m, e) == [m EXCEPT ![e.layer - 1] = [k \in DOMAIN @ |-> IF e.views[e.layer - 1][k] = @[k] THEN @[k] ELSE m[e.layer][k]]]
BadPartial(m, e) ==
  LET i == e.layer - 1 IN
  IF e.failed # "panic" THEN "an interrupted flush is taken for complete"
  ELSE IF \E k \in DOMAIN m[i] : e.views[i][k] # O!ViewAt(m, i, k) /\ (m[e.layer][k] = "." \/ e.views[i][k] # m[e.layer][k])
  THEN "an interrupted flush wrote something else"
  ELSE IF \E j \in e.layer..Len(m) : \E k \in DOMAIN m[j] : e.views[j][k] # O!ViewAt(m, j, k)
  THEN "an interrupted flush lost a write" ELSE ""
JudgeFlushFault(m, e) ==
  IF e.ev # "partial" THEN JudgePlain(m, e)
  ELSE IF e.out # "ok" THEN Verdict("store operation: " \o e.out, m)
  ELSE LET a == AfterPartial(m, e) IN Verdict(BadPartial(m, e), a)
=============================================================================
