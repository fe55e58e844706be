------------------------------ MODULE MCPMTree ------------------------------
(* All histories of puts and deletes over a few short keys, with a perfect      *)
(* hash (the hash of a node is the node).  The stored nodes are always the      *)
(* canonical ones of the contents, whatever the history.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Values, Nothing, Zero
PLeaf(k, v) == <<"L", k, v>>
PBranch(p, ch) == <<"B", p, ch>>
T == INSTANCE PMTree WITH LeafHash <- PLeaf, BranchHash <- PBranch, ZeroHash <- Zero, Root0 <- <<>>

(* lexicographic order of sequences of one length *)
LexLt(a, b) == \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

VARIABLES content, store, changed, op
vars == <<content, store, changed, op>>
Init == content = [k \in {} |-> 0] /\ store = T!EmptyStore /\ changed = FALSE /\ op = <<>>
Put(k, v) ==
  LET r == T!PutAlg(store, k, v, Nothing) IN
  /\ store' = r.st /\ changed' = r.changed /\ op' = <<k, v>>
  /\ content' = T!PutMap(content, k, v, Nothing)
Next == \E k \in Keys, v \in Values \cup {Nothing} : Put(k, v)
Spec == Init /\ [][Next]_vars

(* C14: the store is the canonical one *)
Canonical == store = T!Canon(content)
(* C12: lookups *)
Lookup == \A k \in Keys : IF k \in DOMAIN content THEN k \in DOMAIN store /\ store[k] = T!Leaf(k, content[k]) ELSE k \notin DOMAIN store
ChangedExactly == [][changed' = (content' # content)]_vars
OthersKept == [][\A k \in Keys : op'[1] # k => (k \in DOMAIN content <=> k \in DOMAIN content') /\ (k \in DOMAIN content => content'[k] = content[k])]_vars
(* C13 *)
RootIsFunction == T!NodeHash(store[<<>>]) = T!Root(content)
Contents == UNION {[S -> Values] : S \in SUBSET Keys}
ASSUME Injective == Cardinality({T!Root(c) : c \in Contents}) = Cardinality(Contents)
RECURSIVE Text(_, _)
KeySeq == CHOOSE f \in [1..Cardinality(Keys) -> Keys] : \A i, j \in DOMAIN f : i < j => LexLt(f[i], f[j])
Text(c, i) == IF i > Len(KeySeq) THEN "" ELSE (IF KeySeq[i] \in DOMAIN c THEN c[KeySeq[i]] ELSE "-") \o Text(c, i + 1)
(* prints every transition: contents by key in order, number of the key and value put, new contents *)
Edges == PrintT("OUT " \o Text(content, 1) \o " " \o ToString(CHOOSE i \in DOMAIN KeySeq : KeySeq[i] = op'[1]) \o op'[2] \o " " \o Text(content', 1))
(* the history of one operation is irrelevant: drop op and changed *)
View == <<content, store>>
ZeroMark == <<"Z">>
KeysQuick == {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<0, 1, 1>>, <<1, 0, 0>>, <<1, 1, 1>>}
KeysSmall == {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<1, 0, 1>>}
KeysDeep == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 1, 0>>, <<0, 0, 1, 1>>, <<0, 1, 0, 0>>, <<1, 0, 0, 0>>, <<1, 0, 0, 1>>, <<2, 2, 2, 2>>}
=============================================================================
