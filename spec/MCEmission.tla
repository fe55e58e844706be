----------------------------- MODULE MCEmission -----------------------------
(* Walks the emission block by block through windows of heights: from the      *)
(* beginning, around the emission tail start, around the end of emission.      *)
EXTENDS Emission, TLC
CONSTANTS Windows
(* windows as <<first, last>> *)
VARIABLES h, end, supply
vars == <<h, end, supply>>
Init == \E w \in Windows : h = w[1] /\ end = w[2] /\ supply = SupplyAfter(w[1])
Next == h < end /\ h' = h + 1 /\ supply' = NAdd(supply, RewardFrom(supply, h + 1)) /\ UNCHANGED end
Spec == Init /\ [][Next]_vars
Starts0 == h = 0 => supply = InitialSupply
Agrees == supply = SupplyAfter(h)
Capped == NLeq(supply, TotalSupply)
Grows == [][NLeq(supply, supply')]_vars
(* rewards never grow, except when the tail starts *)
RewardsFall == [][h' # TailStart => NLeq(RewardFrom(supply', h' + 1), RewardFrom(supply, h')) \/ h' + 1 = TailStart]_vars
TailPaysAll == h > 53000000 => NLt(NSub(TotalSupply, supply), TailReward)
QuickWindows == {<<0, 3000>>, <<65000, 66500>>, <<48692000, 48693900>>, <<52889000, 52891500>>, <<52999500, 53000500>>}
DeepWindows == {<<k * 1000000, k * 1000000 + 3000>> : k \in 0..52} \cup {<<0, 20000>>, <<48690000, 48700000>>, <<52880000, 52895000>>}
=============================================================================
