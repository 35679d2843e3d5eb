------------------------------- MODULE Stats ------------------------------
(* Sufficient statistics of a dataset (C12), the estimators (C13) and the    *)
(* structure scores (C14) derived from them.                                 *)
(* A trajectory is [t |-> times, s |-> states]; times are integers counted   *)
(* in units of 2^e2 / unit.                                                  *)
EXTENDS Fix

Intervals(tr) == [k \in 1 .. (Len(tr.t) - 1) |->
                    [a |-> tr.s[k], b |-> tr.s[k + 1], d |-> tr.t[k + 1] - tr.t[k]]]
\* all intervals of a dataset; none reaches from one trajectory into the next
AllIntervals(trajs) == FoldLeft(LAMBDA acc, tr : acc \o Intervals(tr), <<>>, trajs)

\* what each interval contributes: <<configuration, state left, state reached, duration>>
Cells(cards, ints, node, ps) ==
  TLCEval([k \in DOMAIN ints |->
     <<IndexSeq(cards, ps, ints[k].a), At(ints[k].a, node), At(ints[k].b, node), ints[k].d>>])

Count(cells, u, x, y) == IF x = y THEN 0
  ELSE Cardinality({k \in DOMAIN cells : cells[k][1] = u /\ cells[k][2] = x /\ cells[k][3] = y})
Time(cells, u, x) ==
  SumOver({k \in DOMAIN cells : cells[k][1] = u /\ cells[k][2] = x}, LAMBDA k : cells[k][4])

Moves(cells) == {<<cells[k][1], cells[k][2], cells[k][3]>> :
                  k \in {j \in DOMAIN cells : cells[j][2] # cells[j][3]}}
Stays(cells) == {<<cells[k][1], cells[k][2]>> : k \in DOMAIN cells}

(* Reported statistics, sparse: m holds <<u, x, y, count>> for every count   *)
(* that is not zero, t holds <<u, x, time>> for every time that is not zero. *)
StatsOK(cards, ints, node, ps, r) ==
  LET c == At(cards, node)
      U == Configs(cards, ToSet0(ps))
      cells == Cells(cards, ints, node, ps)
  IN /\ r.shape = <<U, c, c>>
     /\ r.tshape = <<U, c>>
     /\ {<<e[1], e[2], e[3]>> : e \in ToSet0(r.m)} = Moves(cells)
     /\ \A i \in DOMAIN r.m : r.m[i][4] = Count(cells, r.m[i][1], r.m[i][2], r.m[i][3])
     /\ \A i \in DOMAIN r.t : r.t[i][3] = Time(cells, r.t[i][1], r.t[i][2])
     /\ \A s \in Stays(cells) : \/ \E i \in DOMAIN r.t : r.t[i][1] = s[1] /\ r.t[i][2] = s[2]
                                \/ Time(cells, s[1], s[2]) = 0

(* ------------------------------ estimators ------------------------------- *)
MOf(r, u, x, y) == LET h == {i \in DOMAIN r.m : r.m[i][1] = u /\ r.m[i][2] = x /\ r.m[i][3] = y}
                   IN IF h = {} THEN 0 ELSE r.m[CHOOSE i \in h : TRUE][4]
TOf(r, u, x) == LET h == {i \in DOMAIN r.t : r.t[i][1] = u /\ r.t[i][2] = x}
                IN IF h = {} THEN 0 ELSE r.t[CHOOSE i \in h : TRUE][3]

\* intensity x -> y as a quotient of integers, for statistics m and t
MleNum(m, unit) == m * unit
MleDen(t) == t
BayesNum(m, U, alpha, unit) == (m * U + alpha) * unit
BayesDen(t, U, tau) == t * U + tau

Tol == Nano(20)
\* q: rows of limbs for one configuration and state
RowOK(num(_), den, row, x) ==
  /\ \A y \in 0 .. (Len(row) - 1) : y # x => FNear(At(row, y), FDiv(num(y), den), Tol)
  /\ FNear(FSumSeq(row), F0, Tol)

(* -------------------------------- scores --------------------------------- *)
\* sum of ln(alpha + k U) for k in 0 .. m-1
LnRise(alpha, U, lo, hi) == FNorm(FoldLeft(LAMBDA a, k : FAdd(a, Ln(alpha + k * U)), F0,
                                  [i \in 1 .. (hi - lo + 1) |-> lo + i - 1]))

\* U times the contribution of state x under configuration u; ms are the counts out of it
ScoreCell(alpha, tau, U, unit, e2, ms, t) ==
  LET m == SumSeq(ms)
      lnU == Ln(U)
      lnDU == FSub(FAdd(Ln(unit), lnU), FMul(e2, Ln(2)))
      \* ln Gamma(a+m+1)/Gamma(a+1), a = alpha/U
      q == FSub(LnRise(alpha, U, 1, m), FMul(m, lnU))
      qt == FSub(FMul(alpha + U, FSub(Ln(tau), lnDU)),
                 FMul(alpha + m * U + U, FSub(Ln(tau + t * U), lnDU)))
      \* the Dirichlet-multinomial part
      rise(k) == FSub(LnRise(alpha, U, 0, k - 1), FMul(k, lnU))
      th == FSub(FSumSeq([i \in DOMAIN ms |-> rise(ms[i])]), rise(m))
  IN FNorm(FAdd(FMul(U, FNorm(FAdd(q, th))), FNorm(qt)))

ScoreU(r, U, c, alpha, tau, unit, e2) ==
  FNorm(FSumOver((0 .. (U - 1)) \X (0 .. (c - 1)),
    LAMBDA ux : ScoreCell(alpha, tau, U, unit, e2,
                  [y \in 1 .. c |-> IF y - 1 = ux[2] THEN 0 ELSE MOf(r, ux[1], ux[2], y - 1)],
                  TOf(r, ux[1], ux[2]))))
\* U times the BIC penalty
PenaltyU(U, c, N) == FNorm(FMul(U, FNorm(FMul((U * c * (c - 1)) \div 2, Ln(N)))))
=============================================================================
