------------------------------- MODULE Streams ----------------------------
(* Randomised components and their streams (C09).  A component is created    *)
(* from (kind, input, seed); what it returns is a function of these and of   *)
(* the operations performed on it so far -- and of nothing else.  Functions  *)
(* ("data", "mc", "space") have no position: with a seed they repeat         *)
(* themselves, without one every call is fresh.                              *)
EXTENDS Base, Json

Gens == {"sampler", "graph", "params"}
Funs == {"data", "mc", "space"}
Kinds == Gens \cup Funs

VARIABLES comp,     \* slot -> component
          memo      \* what was returned under which key
svars == <<comp, memo>>
SInit == comp = <<>> /\ memo = <<>>

\* seed 0: none, so the stream is the component's own
Source(slot, c) == IF c.seed # 0 THEN <<c.seed>>
                   ELSE IF c.kind \in Funs THEN <<0, slot, c.uses>> ELSE <<0, slot>>
Key(slot, arg) ==
  LET c == comp[slot] IN
  [kind |-> c.kind, inp |-> c.inp, arg |-> arg, src |-> Source(slot, c),
   hist |-> IF c.kind \in Funs THEN <<>> ELSE c.hist,
   uses |-> IF c.kind \in Funs THEN 0 ELSE c.uses]

New(slot, kind, inp, seed) ==
  /\ comp' = (slot :> [kind |-> kind, inp |-> inp, seed |-> seed, hist |-> <<>>, uses |-> 0]) @@ comp
  /\ UNCHANGED memo
Reset(slot) ==
  /\ comp[slot].kind = "sampler"
  /\ comp' = [comp EXCEPT ![slot].hist = Append(@, 9)]
  /\ UNCHANGED memo
\* an output is repeated exactly where it has to be
\* (nor is any part of it, such as one trajectory of a dataset, met again elsewhere)
Allowed(k, d, ps) ==
  \A x \in DOMAIN memo :
    /\ x = k => memo[x].d = d /\ memo[x].ps = ps
    /\ (x.kind = k.kind /\ x.inp = k.inp /\ x.arg = k.arg /\ (x.src # k.src \/ x.uses # k.uses))
         => memo[x].d # d /\ memo[x].ps \cap ps = {}
Use(slot, arg, d, ps) ==
  LET k == Key(slot, arg) IN
  /\ Allowed(k, d, ps)
  /\ memo' = IF k \in DOMAIN memo THEN memo ELSE (k :> [d |-> d, ps |-> ps]) @@ memo
  /\ comp' = [comp EXCEPT ![slot].hist = Append(@, arg), ![slot].uses = @ + 1]
=============================================================================
