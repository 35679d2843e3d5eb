-------------------------------- MODULE Fix -------------------------------
(* Fixed-point numbers with nine decimals.  TLC's integers have 32 bits, so  *)
(* a number is four limbs <<i, m, u, n>> standing for i + m/10^3 + u/10^6 +  *)
(* n/10^9; the limbs need not be normalised, so sums and small multiples are *)
(* taken limb by limb.                                                       *)
EXTENDS Base, Json

F0 == <<0, 0, 0, 0>>
FInt(k) == <<k, 0, 0, 0>>
FAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4]>>
FSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4]>>
FMul(k, a) == <<k * a[1], k * a[2], k * a[3], k * a[4]>>
FNeg(a) == FMul(-1, a)

\* normalised: the three lower limbs within 0..999 (\div and % floor in TLA+)
FNorm(a) ==
  LET c3 == a[3] + (a[4] \div 1000)
      c2 == a[2] + (c3 \div 1000)
  IN <<a[1] + (c2 \div 1000), c2 % 1000, c3 % 1000, a[4] % 1000>>

FLt(a, b) ==
  LET x == FNorm(a) y == FNorm(b) IN
  \/ x[1] < y[1]
  \/ x[1] = y[1] /\ x[2] < y[2]
  \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
  \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3] /\ x[4] < y[4]
FLe(a, b) == ~FLt(b, a)
FAbs(a) == IF FLt(a, F0) THEN FNeg(a) ELSE a

\* |a - b| <= t
FNear(a, b, t) == FLe(FAbs(FSub(a, b)), t)
Nano(k) == <<0, 0, k \div 1000, k % 1000>>

FSumSeq(s) == FoldLeft(LAMBDA a, x : FAdd(a, x), F0, s)
FSumOver(S, F(_)) == FoldSet(LAMBDA x, a : FAdd(a, F(x)), F0, S)

\* num / den for integers, 0 <= num < 2^31, 0 < den < 2 * 10^8, by long division
\* (digit by digit; truncated)
FDivPos(num, den) ==
  LET d == FoldLeft(LAMBDA a, k : <<Append(a[1], (a[2] * 10) \div den), (a[2] * 10) % den>>,
                    <<<<>>, num % den>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>)[1]
  IN <<num \div den, 100 * d[1] + 10 * d[2] + d[3], 100 * d[4] + 10 * d[5] + d[6],
       100 * d[7] + 10 * d[8] + d[9]>>
FDiv(num, den) == IF num < 0 THEN FNeg(FDivPos(-num, den)) ELSE FDivPos(num, den)

\* a / k for an integer 0 < k < 2 * 10^6 (floor at the ninth decimal)
FDivInt(a, k) ==
  LET x == FNorm(a)
      m == (x[1] % k) * 1000 + x[2]
      u == (m % k) * 1000 + x[3]
      n == (u % k) * 1000 + x[4]
  IN <<x[1] \div k, m \div k, u \div k, n \div k>>

(* --------------------------------- tables -------------------------------- *)
\* ln 1, ln 2, ... (LnMC checks the table against the laws of the logarithm)
LnTable == TLCEval(ndJsonDeserialize("tables/ln.ndjson"))
LnMax == 20000
Ln(k) == LnTable[k]
\* exp(-k/64)
ExpTable == TLCEval(ndJsonDeserialize("tables/exp.ndjson"))
ExpNeg(k) == IF k > 1500 THEN F0 ELSE ExpTable[k + 1]
=============================================================================
