------------------------------- MODULE Base -------------------------------
(* Arithmetic and indexing shared by all modules.  Nodes, states and         *)
(* configurations are numbered from 0, as in the library; sequences read     *)
(* from traces are 1-based, so At(s, i) is the i-th entry counted from 0.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

At(s, i) == s[i + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
ToSet0(s) == {s[i] : i \in DOMAIN s}
Has(r, f) == f \in DOMAIN r
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
SumOver(S, F(_)) == FoldSet(LAMBDA x, a : a + F(x), 0, S)

(* Integer square root by binary search (largest r with r*r <= n). *)
RECURSIVE IsqrtIn(_, _, _)
IsqrtIn(n, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF m <= n \div m THEN IsqrtIn(n, m, hi) ELSE IsqrtIn(n, lo, m - 1)
Isqrt(n) == IF n <= 0 THEN 0 ELSE IsqrtIn(n, 0, Min2(n, 46340))

(* ----- configurations: mixed radix, smallest member least significant ---- *)
\* cards: sequence of cardinalities of all nodes; P: set of nodes.
Configs(cards, P) == FoldSet(LAMBDA p, a : a * At(cards, p), 1, P)

\* index of the configuration of P in the joint state st (a sequence)
Index(cards, P, st) ==
  FoldLeft(LAMBDA a, p : <<a[1] + At(st, p) * a[2], a[2] * At(cards, p)>>,
           <<0, 1>>, Asc(P))[1]

\* same, with P already given as ascending sequence
IndexSeq(cards, ps, st) ==
  FoldLeft(LAMBDA a, p : <<a[1] + At(st, p) * a[2], a[2] * At(cards, p)>>,
           <<0, 1>>, ps)[1]

\* joint state (sequence over all nodes) with the given number
Decode(cards, idx) ==
  FoldLeft(LAMBDA a, c : <<Append(a[1], a[2] % c), a[2] \div c>>,
           <<<<>>, idx>>, cards)[1]

\* digits of configuration u of the ascending sequence ps, as a function ps -> state
DecodeSeq(cards, ps, u) ==
  LET r == FoldLeft(LAMBDA a, p : <<Append(a[1], a[2] % At(cards, p)), a[2] \div At(cards, p)>>,
                    <<<<>>, u>>, ps)
  IN r[1]

AllNodes(cards) == 0 .. (Len(cards) - 1)
Diff(s, t) == {i \in 0 .. (Len(s) - 1) : At(s, i) # At(t, i)}

(* ------------------------- statistical tolerance ------------------------- *)
(* |c - N*p/q| <= 6.5 sigma + 25, in exact integer arithmetic.               *)
FreqOk(c, N, p, q) ==
  /\ c >= 0 /\ c <= N
  /\ (p = 0 => c = 0)
  /\ (p = q => c = N)
  /\ LET mean == (N * p) \div q
         var  == (((N * p) \div q) * (q - p)) \div q
     IN Abs(c - mean) <= ((13 * Isqrt(var)) \div 2) + 25
=============================================================================
