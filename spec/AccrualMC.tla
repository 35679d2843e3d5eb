------------------------------ MODULE AccrualMC ----------------------------
(* The reward of one trajectory (C20): the samples of a sampler are pulled   *)
(* one at a time until the end time is reached; every sample settles the     *)
(* stay before it.  Explored for every trajectory with integer stays 0 .. D  *)
(* over three states, and compared with the definition: what each instant    *)
(* before the end and each jump up to the end (the end included) is worth.   *)
(* An instant t weighs Weight(t), so that discounting is covered; weights    *)
(* are scaled to integers by 2^End.                                          *)
EXTENDS Base, TLC

CONSTANTS End, D, MaxJumps, Discounted
VARIABLES acc, prev, path, done
vars == <<acc, prev, path, done>>

States == 0 .. 2
Inst(s) == CASE s = 0 -> 1 [] s = 1 -> 10 [] s = 2 -> -7
Jump(x, y) == 100 * (x + 1) + 1000 * (y + 1)
Weight(t) == IF Discounted THEN 2 ^ (End - t) ELSE 2 ^ End
\* what the instants from a up to (without) b are worth
Stay(s, a, b) == Inst(s) * SumSeq([k \in 1 .. (b - a) |-> Weight(a + k - 1)])

Init == /\ acc = 0 /\ done = FALSE
        /\ \E s \in States : prev = [t |-> 0, s |-> s]
        /\ path = <<prev>>
Pull == /\ ~done /\ prev.t < End /\ Len(path) <= MaxJumps
        /\ \E s \in States \ {prev.s}, d \in 0 .. D :
             LET cur == [t |-> prev.t + d, s |-> s] IN
             /\ acc' = acc + (IF cur.t > End THEN Stay(prev.s, prev.t, End)
                              ELSE Stay(prev.s, prev.t, cur.t) + Weight(cur.t) * Jump(prev.s, s))
             /\ prev' = cur /\ path' = Append(path, cur)
        /\ UNCHANGED done
Stop == ~done /\ prev.t >= End /\ done' = TRUE /\ UNCHANGED <<acc, prev, path>>
Next == Pull \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the state at an instant: that of the last sample up to it
At0(t) == path[CHOOSE k \in DOMAIN path : path[k].t <= t /\ \A j \in DOMAIN path : path[j].t <= t => j <= k].s
JumpWorth(F(_, _)) == SumOver({k \in 2 .. Len(path) : path[k].t <= End},
                              LAMBDA k : Weight(path[k].t) * F(path[k - 1].s, path[k].s))
Defined == SumOver(0 .. (End - 1), LAMBDA t : Weight(t) * Inst(At0(t))) + JumpWorth(Jump)
AsDefined == done => acc = Defined
\* nothing after the end is worth anything: the sample that passes it only closes the last stay
OneBeyond == done => Cardinality({k \in DOMAIN path : path[k].t > End}) <= 1
\* the identity the traces are judged by: the worth of a potential's differences
Phi(s) == 3 ^ s
PhiStep(x, y) == Phi(y) - Phi(x)
Telescopes ==
  done => JumpWorth(PhiStep) = Weight(End) * Phi(At0(End)) - Weight(0) * Phi(path[1].s)
            + SumOver(0 .. (End - 1), LAMBDA t : (Weight(t) - Weight(t + 1)) * Phi(At0(t)))
=============================================================================
