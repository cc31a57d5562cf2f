-------------------------------- MODULE Clone1 --------------------------------
EXTENDS PossumClone
cStart == <<[h |-> 1, k |-> "a", n |-> 1], [h |-> 2, k |-> "b", n |-> 1]>>
cActors == [r |-> [h |-> 1, k |-> {"read"}, n |-> 1], w |-> [h |-> 1, k |-> {"put"}, n |-> 1],
            c |-> [h |-> 2, k |-> {"clean"}, n |-> 1], q |-> [h |-> 2, k |-> {"read"}, n |-> 1]]
===============================================================================
