--------------------------------- MODULE TaintMC -------------------------------
(* All short programs over a small set of statements, run with an initialised  *)
(* and with a partly uninitialised memory: what is initialised more never      *)
(* makes more values uninitialised nor more reports, and a program that reads  *)
(* initialised memory only is never reported.                                  *)
EXTENDS Taint
CONSTANT MaxLen
VARIABLES prog, lo, hi
vars == <<prog, lo, hi>>
N == 2 Lz == 2
X(k, i, j, m, n, e) == [k |-> k, i |-> i, j |-> j, m |-> m, n |-> n, e |-> e]
Stmts == {X("con", 1, 1, 1, 1, 1), X("mov", 2, 1, 1, 1, 1), X("op", 1, 1, 2, 1, 1), X("shr", 1, 2, 1, 2, 1), X("setb", 2, 1, 1, 1, 3), X("ast", 1, 1, 1, 1, 1), X("ald", 2, 1, 1, 1, 1),
          X("sst", 1, 2, 1, 1, 2), X("hst", 1, 1, 1, 1, 1), X("hld", 1, 1, 1, 1, 1), X("vmk", 1, 1, 1, 1, 1), X("vadd", 1, 1, 1, 1, 1), X("vst", 1, 1, 1, 1, 1), X("gld", 1, 1, 1, 1, 3), X("gst", 1, 2, 1, 1, 2),
          X("gsb", 1, 1, 1, 2, 3), X("lst", 1, 1, 1, 1, 1), X("sh", 2, 1, 1, 1, 1), X("cpl", 1, 1, 1, 1, 1), X("cpg", 1, 1, 1, 1, 1), X("cpls", 1, 1, 1, 1, 1), X("cpgs", 1, 1, 1, 1, 1), X("vmka", 1, 1, 1, 1, 1), X("asr", 2, 1, 1, 1, 1), X("aad", 1, 2, 1, 1, 3), X("axc", 1, 2, 1, 1, 3), X("br", 1, 1, 1, 1, 1), X("arg", 1, 2, 1, 1, 1)}
(* it: lower and upper run; in the lower one everything the items own is initialised as well *)
Clean0 == [z |-> [v |-> None4, a |-> None4, s |-> None4, t |-> None4, w |-> None4], l |-> None4, g |-> None4, h |-> None4, rep |-> <<>>]
Part == {1, 2}
Init == /\ prog = <<>> /\ lo = [it |-> [i \in 0..(N - 1) |-> Clean0], rep |-> <<>>]
        /\ \E ini \in SUBSET Part : hi = [it |-> [i \in 0..(N - 1) |-> [z |-> [Item0 EXCEPT !.v = IF 1 \in ini THEN None4 ELSE Full4], l |-> Full4, g |-> IF 2 \in ini THEN None4 ELSE [None4 EXCEPT ![3] = {2, 3}], h |-> Full4, rep |-> <<>>]], rep |-> <<>>]
Next == /\ Len(prog) < MaxLen
        /\ \E x \in Stmts : prog' = Append(prog, x) /\ lo' = TLCEval(Step(x, Len(prog) + 1, N, Lz, lo)) /\ hi' = TLCEval(Step(x, Len(prog) + 1, N, Lz, hi))
Sub(x, y) == \A n \in B : x[n] \subseteq y[n]
Below == \A i \in 0..(N - 1) : LET x == lo.it[i] y == hi.it[i] IN /\ Sub(x.l, y.l) /\ Sub(x.g, y.g) /\ Sub(x.h, y.h) /\ Sub(x.z.v, y.z.v) /\ Sub(x.z.a, y.z.a) /\ Sub(x.z.s, y.z.s) /\ Sub(x.z.w, y.z.w)
Silent == lo.rep = <<>> /\ \A i \in 0..(N - 1) : ~Dirty(lo.it[i].z.v) /\ ~Dirty(lo.it[i].g) /\ ~Dirty(lo.it[i].h) /\ ~Dirty(lo.it[i].l)
(* what a launch leaves uninitialised in global memory was so before, was copied as a structure, or was reported *)
Blame == \A i \in 0..(N - 1) : \A e \in B : hi.it[i].g[e] \subseteq (IF e = 3 THEN {2, 3} ELSE {}) \/ \E r \in 1..Len(hi.rep) : hi.rep[r][3] \in {"val global", "copy"}
================================================================================
