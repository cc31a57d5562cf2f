------------------------------- MODULE Store3 -------------------------------
(* two batches of one handle, and values that move from one to the other; a deleter *)
EXTENDS PossumStore
cActors == [w |-> [h |-> 1, k |-> {"put", "give"}, n |-> 1], x |-> [h |-> 1, k |-> {"put"}, n |-> 1]]
cStart == <<[h |-> 1, k |-> "a", n |-> 4]>>
===============================================================================
