------------------------------- MODULE LnMC -------------------------------
(* The logarithm table obeys ln(ab) = ln a + ln b and the bounds             *)
(* 1/(k+1) < ln(k+1) - ln k < 1/k; both pin it down.                         *)
EXTENDS Fix
VARIABLE k
Init == k = 1
Next == k < LnMax /\ k' = k + 1
Spec == Init /\ [][Next]_k
LnOne == Ln(1) = F0 /\ Len(LnTable) = LnMax
Step == k < LnMax =>
  LET d == FNorm(FSub(Ln(k + 1), Ln(k))) IN
  /\ FLe(FSub(FDivPos(1, k + 1), Nano(2)), d)
  /\ FLe(d, FAdd(FDivPos(1, k), Nano(2)))
Product == \A f \in {2, 3, 5, 7, 11, 13, 17} :
  f * k <= LnMax => FNear(Ln(f * k), FAdd(Ln(f), Ln(k)), Nano(2))
=============================================================================
