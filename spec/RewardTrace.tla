---------------------------- MODULE RewardTrace ---------------------------
EXTENDS Reward, TraceLib

VARIABLES cards, rf
tvars == <<cards, rf, l>>
TraceInit == cards = <<>> /\ rf = Zero(<<>>) /\ l = 1
keep == UNCHANGED <<cards, rf>>

(* ------------------------------- C19 ------------------------------------- *)
\* what the library holds, entry by entry, after the operation
Holds(o) == o.inst = rf'.inst /\ o.trans = rf'.trans

TInit == IsEvent("rinit") /\ cards' = Ev.cards /\ rf' = Zero(Ev.cards) /\ Holds(Ev)
TSetI == /\ IsEvent("seti") /\ UNCHANGED cards
         /\ rf' = [rf EXCEPT !.inst[Ev.i + 1][Ev.x + 1] = Ev.v] /\ Holds(Ev)
TSetT == /\ IsEvent("sett") /\ UNCHANGED cards
         /\ rf' = [rf EXCEPT !.trans[Ev.i + 1][Ev.x + 1][Ev.y + 1] = Ev.v] /\ Holds(Ev)
\* every entry set
TFill == /\ IsEvent("fill") /\ UNCHANGED cards
         /\ rf' = [inst |-> Ev.sinst, trans |-> Ev.strans] /\ Holds(Ev)
TCall == /\ IsEvent("call") /\ keep
         /\ Ev.inst = Inst(rf, Ev.cur)
         /\ Ev.trans = Trans(rf, Ev.prev, Ev.cur)

(* ------------------------------- C20 ------------------------------------- *)
Small == <<0, 0, 2, 0>>        \* 2e-6 absolute
\* reward r per unit of time in every state, nothing for transitions
TConst == /\ IsEvent("const") /\ keep /\ Len(Ev.v) = 4
          /\ FNear(FMul(AccrualDen(Ev.gn), Ev.v),
                   FMul(Ev.r, Accrual64(Ev.gn, Ev.gd, Ev.k, Ev.t64)),
                   IF Ev.gn = 0 THEN Nano(1000)
                   ELSE Nano(40 * (Abs(Ev.r) + 1) * (Ev.gd + Ev.gn + 1) + 100))

\* transition reward phi(y) - phi(x), instantaneous reward -g phi(x): a single
\* trajectory is worth e^(-gT) phi(end) - phi(start), whatever happens
AllStates == 0 .. (ProdSeq(cards) - 1)
TPot ==
  /\ IsEvent("pot") /\ keep /\ Len(Ev.v) = 4
  /\ LET c == Ev.cards
         vals == {Phi(Ev.phi, Decode(c, s)) : s \in 0 .. (ProdSeq(c) - 1)}
         w == FNorm(FAdd(Ev.v, FInt(Phi(Ev.phi, Ev.x0))))
         e == IF Ev.fin THEN FInt(1) ELSE ExpNeg(Ev.k)
         tol == Nano(2000)
     IN IF Ev.n = 1 THEN \E y \in vals : FNear(w, FMul(y, e), tol)
        ELSE /\ FLe(FSub(FMul(Min(vals), e), tol), w)
             /\ FLe(w, FAdd(FMul(Max(vals), e), tol))
             \* an average of n integers
             /\ Ev.fin => LET z == FNorm(FMul(Ev.n, w))
                          IN \/ FNear(z, FInt(z[1]), Nano(3000 * Ev.n))
                             \/ FNear(z, FInt(z[1] + 1), Nano(3000 * Ev.n))

\* equal seeds, no early stop: the value is linear in the reward
TLin == /\ IsEvent("lin") /\ keep
        /\ FNear(Ev.v, FSumSeq([i \in DOMAIN Ev.vs |-> FMul(Ev.c[i], Ev.vs[i])]), Ev.tol)

TDet ==
  /\ IsEvent("det") /\ keep /\ Len(Ev.v) = 4
  /\ LET c == Cascade(Ev.net, Ev.rf, Ev.x0, 0)
         k == AccrualDen(Ev.gn)
     IN FNear(FMul(k, Ev.v),
              FAdd(FInt(k * c[2]), FMul(Inst(Ev.rf, c[1]), Accrual64(Ev.gn, Ev.gd, Ev.k, Ev.t64))),
              FMul(k, <<0, 0, 20, 0>>))

\* independent binary variables
TExp2 ==
  /\ IsEvent("exp2") /\ keep /\ Len(Ev.v) = 4
  /\ FNear(Ev.v, FSumSeq([i \in DOMAIN Ev.d |-> Exp2(Ev.d[i], Ev.g, Ev.t64)]), FAdd(Ev.tol, Small))

\* vs[k]: the average over k trajectories (no early stop, limit k), each worth an integer
\* (plus a constant that is left out, and may be much larger: slack, in 10^-9);
\* v: with the limit Len(vs), error en/ed and confidence level c, same seed.  Averaging
\* ends at the limit or once the average is known well enough, and then does end
TStop ==
  /\ IsEvent("stop") /\ keep /\ Len(Ev.v) = 4
  /\ LET K == Len(Ev.vs)
         sum(k) == LET x == FNorm(FAdd(FMul(k, Ev.vs[k]), <<0, 500, 0, 0>>)) IN x[1]
         r == [k \in 1 .. K |-> IF k = 1 THEN sum(1) ELSE sum(k) - sum(k - 1)]
         s == Sums(r)
         tol == Nano(50 + Ev.slack)
     IN /\ \A k \in 1 .. K : FNear(FMul(k, Ev.vs[k]), FInt(sum(k)), Nano((1000 + Ev.slack) * k))
        /\ \E n \in 1 .. K :
             /\ FNear(Ev.v, Ev.vs[n], tol)
             /\ n = K \/ (n >= 3 /\ Within(s[n], n, Ev.c, Ev.en, Ev.ed, 6, 5))
             /\ \A i \in 10 .. (n - 1) : ~Within(s[i], i, Ev.c, Ev.en, Ev.ed, 3, 4)

\* any network, horizon long enough to be infinite: the values of all states
\* solve g V(s) = r(s) + sum of q(s,s') (w(s,s') + V(s') - V(s))
TBell ==
  /\ IsEvent("bell") /\ keep
  /\ \A s \in 0 .. (Total(Ev.net) - 1) :
       LET st == Decode(Ev.net.cards, s)
           js == JumpSet(Ev.net, st)
           to(j) == Index(Ev.net.cards, AllNodes(Ev.net.cards), Moved(st, j[1], j[2]))
           q(j) == Rate(Ev.net, j[1], st, j[2])
           V(i) == At(Ev.v, i)
           E(i) == At(Ev.tol, i)
           rhs == FAdd(FInt(Inst(Ev.rf, st)), FSumOver(js, LAMBDA j :
                    FMul(q(j), FAdd(FInt(Trans(Ev.rf, st, Moved(st, j[1], j[2]))), FSub(V(to(j)), V(s))))))
           tol == FSumOver(js, LAMBDA j : FMul(q(j), FAdd(E(to(j)), E(s))))
       IN FNear(FMul(Ev.gn, V(s)), rhs, FAdd(FAdd(tol, FMul(Ev.gn, E(s))), <<0, 0, 50, 0>>))

(* ------------------------------- C21 ------------------------------------- *)
\* keys: numbers of the states, as listed by the library; vals and alone are
\* the bit patterns of the values (alone: each state evaluated on its own)
TSpace ==
  /\ IsEvent("space") /\ keep
  /\ LET n == ProdSeq(Ev.cards) IN
     /\ Len(Ev.keys) = n
     /\ ToSet0(Ev.keys) = {Decode(Ev.cards, s) : s \in 0 .. (n - 1)}
     /\ Len(Ev.vals) = n /\ Ev.vals = Ev.alone

\* the same for large spaces, summed up: entries, different states, states in the
\* domain, values equal to that of the state on its own
TWide ==
  /\ IsEvent("wide") /\ keep
  /\ LET n == ProdSeq(Ev.cards) IN Ev.n = n /\ Ev.nums = n /\ Ev.dom = n /\ Ev.agree = n

\* base: value of every state by number; vals: relative reward by number, <<1>> for
\* infinity: a positive value has an infinite ratio to zero; 0/0 is no ratio
TRel ==
  /\ IsEvent("rel") /\ keep
  /\ Len(Ev.keys) = ProdSeq(Ev.cards)
  /\ ToSet0(Ev.keys) = 0 .. (ProdSeq(Ev.cards) - 1)
  /\ \A i \in DOMAIN Ev.keys :
       LET s == Ev.keys[i]
           v == At(Ev.base, s)
           nb == Neighbours(Ev.cards, s)
           \* quotients over the neighbourhood, and 1
           qs == {FInt(1)} \cup {IF At(Ev.base, t) < 0 THEN FDiv(-v, -At(Ev.base, t))
                                 ELSE FDiv(v, At(Ev.base, t)) : t \in {t \in nb : At(Ev.base, t) # 0}}
           m == CHOOSE x \in qs : \A y \in qs : FLe(y, x)
       IN IF v > 0 /\ \E t \in nb : At(Ev.base, t) = 0 THEN Ev.vals[i] = <<1>>
          ELSE Len(Ev.vals[i]) = 4 /\ FNear(Ev.vals[i], m, Nano(5))

TraceNext == TInit \/ TSetI \/ TSetT \/ TFill \/ TCall \/ TConst \/ TPot \/ TLin \/ TDet \/ TExp2 \/ TStop \/ TBell
             \/ TSpace \/ TWide \/ TRel
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
