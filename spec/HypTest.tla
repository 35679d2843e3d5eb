------------------------------- MODULE HypTest ----------------------------
(* The two independence tests (C17) on integer statistics.  Verdicts are     *)
(* "ind", "dep", or "any" when the statistic is too close to the quantile    *)
(* for the rounding of either side.                                          *)
EXTENDS Fix

Chi2Table == TLCEval(ndJsonDeserialize("tables/chi2.ndjson"))    \* [alpha][dof]
FTable == TLCEval(ndJsonDeserialize("tables/f.ndjson"))
Dofs == <<1, 2, 3, 4, 5, 6, 8, 10, 12, 20, 30, 50, 100, 200, 1000>>
\* [alpha][d1][d2] -> quantiles, absent where the table has none
FIndex == TLCEval([k \in {<<r.a, r.d1, r.d2>> : r \in ToSet0(FTable)} |->
                     CHOOSE r \in ToSet0(FTable) : <<r.a, r.d1, r.d2>> = k])

Both(V) == IF "dep" \in V THEN "dep" ELSE IF "any" \in V THEN "any" ELSE "ind"

(* ------------------------------- chi-square ------------------------------ *)
\* Rows a and b of counts, both multiplied by s.  With R and Q the row sums the
\* statistic is the sum over cells of (R b - Q a)^2 / (R Q (a + b)), times s.
\* A row never observed, or a cell observed nowhere, says nothing.
ChiRow(a, b, x, s) ==
  LET R == SumSeq(a) Q == SumSeq(b)
      term(y) == IF y = x + 1 \/ a[y] + b[y] = 0 THEN F0
                 ELSE LET d == R * b[y] - Q * a[y] IN FDiv(d * d, R * Q * (a[y] + b[y]))
  IN IF R = 0 \/ Q = 0 THEN F0
     ELSE FMul(s, FNorm(FSumSeq([y \in DOMAIN a |-> term(y)])))

ChiMargin == <<0, 0, 2, 0>>
ChiVerdict(stat, crit) == IF FLt(stat, FSub(crit, ChiMargin)) THEN "ind"
                          ELSE IF FLt(FAdd(crit, ChiMargin), stat) THEN "dep" ELSE "any"
\* m1, m2: matrices of one configuration each
ChiSame(m1, m2, s, alpha) ==
  LET crit == Chi2Table[alpha][Len(m1) - 1]
  IN Both({ChiVerdict(ChiRow(m1[x], m2[x], x - 1, s), crit) : x \in DOMAIN m1})

(* ----------------------------------- F ----------------------------------- *)
\* r1, r2: numbers of transitions; q1, q2: exit intensities
FVerdict(r1, r2, q1, q2, alpha) ==
  IF r1 = 0 \/ r2 = 0 THEN "ind"
  ELSE LET k == <<alpha, r1, r2>> IN
       IF k \notin DOMAIN FIndex THEN "any"
       ELSE LET t == FIndex[k]
                z == FDiv(q2, q1)
                eps(v) == <<0, 0, 1 + (v[1] \div 10), 0>>        \* 1e-6 and one part in 10^7
                lo == t.lo hi == t.hi
            IN IF FLt(z, FSub(lo, eps(lo))) \/ FLt(FAdd(hi, eps(hi)), z) THEN "dep"
               ELSE IF FLt(FAdd(lo, eps(lo)), z) /\ FLt(z, FSub(hi, eps(hi))) THEN "ind"
               ELSE "any"
FSame(r1, r2, q1, q2, alpha) ==
  Both({FVerdict(r1[x], r2[x], q1[x], q2[x], alpha) : x \in DOMAIN r1})

(* ------------------- which configurations are compared ------------------- *)
\* configuration of sep that configuration u of sep + candidate restricts to
ConfIn(cards, sep, p, u) ==
  LET big == Asc(sep \cup {p})
      digits == DecodeSeq(cards, big, u)
      st == [i \in 1 .. Len(cards) |-> IF (i - 1) \in sep \cup {p}
               THEN digits[CHOOSE k \in DOMAIN big : big[k] = i - 1] ELSE 0]
  IN Index(cards, sep, st)
=============================================================================
