------------------------------ MODULE MCMerkle ------------------------------
(* Signature proofs with a perfect hash: a signer climbs the Merkle tree of a  *)
(* multi-signature group.  The hash of a node is the pair of its children, the *)
(* hash of a leaf its key.  Climbing from a key with the siblings on its way,  *)
(* on the sides the branch bits say, gives the root of the tree; so all        *)
(* members of a group sign for the same address, and a path names one root.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Depth

RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN { <<"leaf", k>> : k \in Keys }
            ELSE Trees(d - 1) \cup { <<"node", a, b>> : a, b \in Trees(d - 1) }

Root(leaf, bits, sibs) ==
  LET RECURSIVE Up(_)
      Up(i) == IF i = 0 THEN <<"leaf", leaf>>
               ELSE IF bits[i] = 1 THEN <<"node", sibs[i], Up(i - 1)>> ELSE <<"node", Up(i - 1), sibs[i]>>
  IN Up(Len(sibs))

(* state: a walk down from the root of a tree, recording siblings bottom-up *)
VARIABLES tree, at, bits, sibs
vars == <<tree, at, bits, sibs>>
Init == tree \in Trees(Depth) /\ at = tree /\ bits = <<>> /\ sibs = <<>>
Down == /\ at[1] = "node"
        /\ \/ at' = at[2] /\ bits' = <<0>> \o bits /\ sibs' = <<at[3]>> \o sibs
           \/ at' = at[3] /\ bits' = <<1>> \o bits /\ sibs' = <<at[2]>> \o sibs
        /\ UNCHANGED tree
Spec == Init /\ [][Down]_vars

(* reaching a leaf, the path proves membership in exactly this tree *)
Member == at[1] = "leaf" => Root(at[2], bits, sibs) = tree
(* turning any one branch bit names another root unless both sides are equal *)
Flip(i) == [bits EXCEPT ![i] = 1 - @]
BitsMatter == at[1] = "leaf" => \A i \in 1..Len(bits) :
  Root(at[2], Flip(i), sibs) = tree => sibs[i] = Root(at[2], SubSeq(bits, 1, i - 1), SubSeq(sibs, 1, i - 1))
=============================================================================
