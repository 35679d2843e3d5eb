-------------------------------- MODULE Cim -------------------------------
(* Validity of intensity matrices, and the parameter holder that accepts or  *)
(* rejects them.                                                             *)
(* An entry is <<t, a, b>>: t = 0 for the number a * scale + b * 1e-10 (scale *)
(* a positive number, the same within a row), 1 NaN, 2 +inf, 3 -inf.         *)
EXTENDS Base

Num(e) == e[1] = 0
NegEntry(e) == e[2] < 0 \/ (e[2] = 0 /\ e[3] < 0)
ZeroEntry(e) == e[2] = 0 /\ e[3] = 0

RowA(row) == FoldLeft(LAMBDA s, e : s + e[2], 0, row)
RowB(row) == FoldLeft(LAMBDA s, e : s + e[3], 0, row)

\* verdict of one row; x is its own state (position of the diagonal, from 0)
RowVerdict(row, x) ==
  IF \E i \in DOMAIN row : ~Num(row[i]) THEN "invalid"
  ELSE IF ~NegEntry(row[x + 1]) THEN "invalid"
  ELSE IF \E i \in DOMAIN row : i # x + 1 /\ NegEntry(row[i]) THEN "invalid"
  ELSE IF RowA(row) # 0 THEN "invalid"
  ELSE IF Abs(RowB(row)) >= 200 THEN "invalid"
  ELSE IF Abs(RowB(row)) <= 100 THEN "valid"
  ELSE "either"

MatVerdict(m, card) ==
  IF Len(m) # card \/ \E x \in DOMAIN m : Len(m[x]) # card THEN "invalid"
  ELSE LET v == {RowVerdict(m[x], x - 1) : x \in DOMAIN m}
       IN IF "invalid" \in v THEN "invalid" ELSE IF "either" \in v THEN "either" ELSE "valid"

CimVerdict(c, card) ==
  LET v == {MatVerdict(c[u], card) : u \in DOMAIN c}
  IN IF "invalid" \in v THEN "invalid" ELSE IF "either" \in v THEN "either" ELSE "valid"

(* ------------------------------ the holder ------------------------------ *)
\* held: [tok |-> 0 when nothing is held, otherwise the number of the matrix;
\*        v |-> its verdict]
VARIABLE held
Nothing == [tok |-> 0, v |-> "none"]

SetOk(tok, v) == v \in {"valid", "either"} /\ held' = [tok |-> tok, v |-> v]
SetRejected(v) == v \in {"invalid", "either"} /\ held' = Nothing
SetUnchecked(tok, v) == held' = [tok |-> tok, v |-> v]
ResetHolder == held' = Nothing

\* answers that validation may give
Answers(h) == CASE h.tok = 0 -> {"notinit"}
                [] h.v = "valid" -> {"ok"}
                [] h.v = "invalid" -> {"invalid"}
                [] OTHER -> {"ok", "invalid"}

\* what got in through the checked setter is valid
=============================================================================
