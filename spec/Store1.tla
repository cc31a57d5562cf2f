------------------------------- MODULE Store1 -------------------------------
(* one handle: a writer, a deleter, a reader, the reclaimer *)
EXTENDS PossumStore
CONSTANT dels
cActors == [w |-> [h |-> 1, k |-> {"put", "drop"}, n |-> 1], d |-> [h |-> 1, k |-> {"del"}, n |-> dels],
            r |-> [h |-> 1, k |-> {"read"}, n |-> 1]]
cStart == <<[h |-> 1, k |-> "a", n |-> 3], [h |-> 1, k |-> "b", n |-> 2]>>
===============================================================================
