------------------------------- MODULE Reward -----------------------------
(* Factored reward functions (C19) and the expected accumulated reward (C20).*)
(* A reward function is [inst |-> per node a sequence, trans |-> per node a  *)
(* square matrix]; values are integers.                                      *)
EXTENDS Ctbn, Fix

Zero(cards) == [inst |-> [i \in DOMAIN cards |-> [x \in 1 .. cards[i] |-> 0]],
                trans |-> [i \in DOMAIN cards |-> [x \in 1 .. cards[i] |-> [y \in 1 .. cards[i] |-> 0]]]]

Inst(rf, st) == SumSeq([i \in DOMAIN st |-> rf.inst[i][st[i] + 1]])
\* prev and cur differ in at most one node; <<>> stands for "no previous state"
Trans(rf, prev, cur) ==
  IF prev = <<>> \/ prev = cur THEN 0
  ELSE LET i == CHOOSE i \in DOMAIN cur : prev[i] # cur[i]
       IN rf.trans[i][prev[i] + 1][cur[i] + 1]

(* ---------------- accumulated reward, independent of chance --------------- *)
\* int_0^T e^(-g t) dt; g = gn/gd, k = 64 g T, t64 = 64 T; gn = 0: no discount
\* (multiplied by gn * 64 so that nothing is lost)
Accrual64(gn, gd, k, t64) == IF gn = 0 THEN FInt(t64)
                             ELSE FMul(64 * gd, FSub(FInt(1), ExpNeg(k)))
AccrualDen(gn) == IF gn = 0 THEN 64 ELSE 64 * gn

\* value of a potential: sum over nodes
Phi(phi, st) == SumSeq([i \in DOMAIN st |-> phi[i][st[i] + 1]])

\* a cascade: q holds 1 for moves that happen at once and 0 for moves that
\* never happen; in every state on the way exactly one move is possible
RECURSIVE Cascade(_, _, _, _)
Cascade(net, rf, st, acc) ==
  LET j == JumpSet(net, st) IN
  IF j = {} THEN <<st, acc>>
  ELSE LET m == CHOOSE m \in j : TRUE
           to == Moved(st, m[1], m[2])
       IN Cascade(net, rf, to, acc + Trans(rf, st, to))

(* ------------------- expectation for one binary variable ------------------ *)
\* a: rate 0 -> 1, b: rate 1 -> 0 (integers), discount g/4, horizon t64/64;
\* s the initial value
Exp2(d, g, t64) ==
  LET lam == d.a + d.b
      e0 == IF g = 0 THEN FDivInt(FInt(t64), 64)
            ELSE FDivInt(FMul(4, FSub(FInt(1), ExpNeg((g * t64) \div 4))), g)
      e1 == FDivInt(FMul(4, FSub(FInt(1), ExpNeg(((g + 4 * lam) * t64) \div 4))), g + 4 * lam)
      dif == FSub(e0, e1)
      occ1 == IF d.s = 0 THEN FDivInt(FMul(d.a, dif), lam)
              ELSE FSub(e0, FDivInt(FMul(d.b, dif), lam))
      occ0 == FSub(e0, occ1)
  IN FAdd(FMul(d.r0 + d.w01 * d.a, occ0), FMul(d.r1 + d.w10 * d.b, occ1))

(* --------------------------- when to stop averaging ----------------------- *)
\* squares of the two-sided quantiles of the normal distribution for a
\* confidence of 0.5, 0.9, 0.95, 0.99, 0.999
ZSq == <<<<0, 454, 936, 423>>, <<2, 705, 543, 454>>, <<3, 841, 458, 821>>,
         <<6, 634, 896, 601>>, <<10, 827, 566, 170>>>>
\* sums of the first 1, 2, ... numbers of r and of their squares
Sums(r) == FoldLeft(LAMBDA a, x : Append(a, IF a = <<>> THEN <<x, x * x>>
                                            ELSE <<a[Len(a)][1] + x, a[Len(a)][2] + x * x>>), <<>>, r)
\* s: the sums of n numbers.  z^2 (n S2 - S1^2) against err^2 n^2 (n - 1): the average is
\* known to within err = en / ed at confidence level c; p / q is a margin
Spread(s, n) == n * s[2] - s[1] * s[1]
Within(s, n, c, en, ed, p, q) ==
  FLe(FMul(q * ed * ed, FDivInt(FMul(Spread(s, n), ZSq[c]), n * (n - 1))), FInt(p * en * en * n))

(* ------------------- relative reward of a neighbourhood ------------------- *)
Neighbours(cards, s) == {t \in 0 .. (ProdSeq(cards) - 1) :
                           Cardinality(Diff(Decode(cards, s), Decode(cards, t))) < 2}
=============================================================================
