------------------------------ MODULE CacheMC -----------------------------
EXTENDS Cache
CONSTANTS Nodes, MaxLen
VARIABLES hist, ok
vars == <<small, big, level, hist, ok>>
Sets == {{}, {1}, {2}, {1, 2}, {0, 2}, {0, 1, 2}}
Init == CInit /\ hist = <<>> /\ ok = TRUE
Next == /\ Len(hist) < MaxLen
        /\ \E n \in 0 .. (Nodes - 1), S \in Sets :
             /\ Request(n, S)
             /\ hist' = Append(hist, <<n, Asc(S)>>)
             /\ ok' = (Result(n, S) = Token(n, S))
Spec == Init /\ [][Next]_vars
Right == ok /\ Transparent
EmitTest == Len(hist) < MaxLen \/ PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
