-------------------------------- MODULE Clone3 --------------------------------
(* clones and writers whose bytes are replaced before they are committed *)
EXTENDS PossumClone
cStart == <<[h |-> 1, k |-> "a", n |-> 1]>>
cActors == [r |-> [h |-> 1, k |-> {"read"}, n |-> 2], w |-> [h |-> 1, k |-> {"put", "part"}, n |-> 1],
            q |-> [h |-> 2, k |-> {"read"}, n |-> 2]]
===============================================================================
