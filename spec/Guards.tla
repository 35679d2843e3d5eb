------------------------------- MODULE Guards -----------------------------
(* What is refused (C23).  Numbers are named tokens in increasing order.     *)
EXTENDS Base, Json
Nums == <<"-inf", "-1", "-eps", "-tiny", "-0", "0", "tiny", "half", "1-", "1", "1+", "2", "big", "inf">>
Pos(x) == CHOOSE i \in DOMAIN Nums : Nums[i] = x
\* -0 equals 0
Below0(x) == Pos(x) < Pos("-0")
Above1(x) == Pos(x) > Pos("1")

Accepts(what, x) ==
  CASE what = "traj" -> x[1] = x[2]
    [] what = "dataset" -> \A i, j \in DOMAIN x : x[i] = x[j]
    [] what = "density" -> ~Below0(x[1]) /\ ~Above1(x[1])
    [] what = "interval" -> ~Below0(x[1]) /\ ~Below0(x[2])
    [] what = "tau" -> ~Below0(x[1])
    [] what = "learner" -> x[1] = x[2]
    [] what = "params" -> x[2] = 1

Domain(what) ==
  CASE what = "traj" -> (0 .. 5) \X (0 .. 5) \X (0 .. 3)
    [] what = "dataset" -> UNION {[1 .. k -> 1 .. 3] : k \in 0 .. 5}
    [] what = "density" -> {<<n>> : n \in ToSet0(Nums)}
    [] what = "interval" -> {<<a, b>> : a \in {"-inf", "-1", "-eps", "-tiny", "-0", "0", "half", "1"},
                                        b \in {"-1", "-eps", "2", "big"}}
    [] what = "tau" -> {<<n, b, a>> : n \in ToSet0(Nums), b \in {0, 1}, a \in {1, 3}}
    [] what = "learner" -> (1 .. 4) \X (1 .. 5) \X (0 .. 2)
    [] what = "params" -> (2 .. 4) \X (0 .. 4) \X (0 .. 2)
Whats == {"traj", "dataset", "density", "interval", "tau", "learner", "params"}
=============================================================================
