----------------------------- MODULE StoreLive -----------------------------
(* everything ends, and what was given up is reclaimed *)
EXTENDS PossumStore
cActors == [w |-> [h |-> 1, k |-> {"put"}, n |-> 1], d |-> [h |-> 2, k |-> {"del"}, n |-> 1],
            r |-> [h |-> 1, k |-> {"read"}, n |-> 1]]
cStart == <<[h |-> 1, k |-> "a", n |-> 4], [h |-> 1, k |-> "b", n |-> 3]>>
===============================================================================
