------------------------------- MODULE Store2 -------------------------------
(* two handles: one writes and is closed, the other deletes; the command line tool *)
EXTENDS PossumStore
cActors == [w |-> [h |-> 1, k |-> {"put"}, n |-> 1], c |-> [h |-> 1, k |-> {"close"}, n |-> 1],
            d |-> [h |-> 2, k |-> {"del"}, n |-> 2], t |-> [h |-> 2, k |-> {"tool"}, n |-> 1]]
cStart == <<[h |-> 1, k |-> "a", n |-> 4], [h |-> 1, k |-> "b", n |-> 3]>>
===============================================================================
