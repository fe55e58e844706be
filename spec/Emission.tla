------------------------------ MODULE Emission ------------------------------
(* Coin emission.  Supplies are BigNat numbers, heights are below 2^31.        *)
(* java/Emission.java overrides SupplyAfter (J); MCEmission steps through the   *)
(* recurrence and compares.                                                    *)
EXTENDS Integers, BigNat

TotalSupply == NMul(NOfInt(2100000000), NOfInt(1000000))
InitialSupply == NMul(NOfInt(252000000), NOfInt(1000000))
EmissionSpeed == NOfInt(4194304)
TailStart == 48692960
TailReward == NOfInt(4000)

(* reward of block h when supply coins exist before it *)
RewardFrom(supply, h) ==
  IF h = 0 THEN N0
  ELSE LET remaining == NSub(TotalSupply, supply) IN
       IF h >= TailStart /\ NLeq(TailReward, remaining) THEN TailReward
       ELSE NDiv(remaining, EmissionSpeed)

RECURSIVE SupplyAfterR(_)
SupplyAfterR(h) ==
  IF h = 0 THEN InitialSupply
  ELSE LET before == SupplyAfterR(h - 1) IN NAdd(before, RewardFrom(before, h))
(* (J) supply after block h *)
SupplyAfter(h) == SupplyAfterR(h)
Reward(h) == RewardFrom(SupplyAfter(h - 1), h)
=============================================================================
