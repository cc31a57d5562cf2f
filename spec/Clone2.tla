-------------------------------- MODULE Clone2 --------------------------------
(* a process dies; others clean up *)
EXTENDS PossumClone
cStart == <<[h |-> 1, k |-> "a", n |-> 1], [h |-> 2, k |-> "b", n |-> 1]>>
cActors == [r |-> [h |-> 1, k |-> {"read", "close"}, n |-> 2],
            c |-> [h |-> 1, k |-> {"clean"}, n |-> 1], q |-> [h |-> 2, k |-> {"read", "clean"}, n |-> 2]]
===============================================================================
