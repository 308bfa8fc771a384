--------------------------------- MODULE Index -------------------------------
(* Subscripts of statically sized arrays: struct { int pre; int a[d1]..[dm];   *)
(* int post[2]; }, all of it one allocation of ints numbered from 0.            *)
EXTENDS Integers, Sequences, SequencesExt
Prod(d) == FoldLeft(LAMBDA x, y : x * y, 1, d)
Words(d) == Prod(d) + 3
Linear(d, ix) == FoldLeft(LAMBDA x, k : x * d[k] + ix[k], 0, [k \in 1..Len(d) |-> k])
Word(d, ix) == 1 + Linear(d, ix)
BadIndices(d, ix) == {<<ix[k], d[k]>> : k \in {j \in 1..Len(d) : ix[j] < 0 \/ ix[j] >= d[j]}}
Out(d, ix) == Word(d, ix) < 0 \/ Word(d, ix) >= Words(d)
=============================================================================
