-------------------------------- MODULE IndexMC ------------------------------
(* All small shapes: subscripts in range name the words of the array, each     *)
(* exactly once; every access outside the allocation has a subscript out of     *)
(* range.                                                                       *)
EXTENDS Index, FiniteSets
VARIABLES d, ix
Init == d \in UNION {[1..m -> 1..3] : m \in 1..3} /\ ix \in [DOMAIN d -> -2..4]
Next == UNCHANGED <<d, ix>>
In == {i \in [DOMAIN d -> 0..2] : \A k \in DOMAIN d : i[k] < d[k]}
Right == /\ (BadIndices(d, ix) = {}) = (ix \in In)
         /\ Out(d, ix) => BadIndices(d, ix) # {}
         /\ ix \in In => \A i \in In : i # ix => Word(d, i) # Word(d, ix)
         /\ {Word(d, i) : i \in In} = 1..Prod(d)
=============================================================================
