-------------------------------- MODULE Race ---------------------------------
(* Data races of one kernel run. Every work-item performs its accesses in     *)
(* phases; between two phases of a group lies a synchronisation of the group  *)
(* with fences for local and/or global memory. An asynchronous copy accesses  *)
(* memory as an entity of its own (number 0 of its group).                    *)
(*                                                                            *)
(* access: [g, i, p (phase), sp ("l"/"g"), off (from 0), n (bytes),           *)
(*          k ("ld" load, "st" store, "at" atomic read-modify-write,          *)
(*             "cf" compare-exchange that fails: an atomic load),             *)
(*          v, d: the k-th byte stored is v + d * k; v = -1: not known]       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Writes(a) == a.k \in {"st", "at"}
Atomic(a) == a.k \in {"at", "cf"}
Covers(a, x) == a.off <= x /\ x < a.off + a.n
ByteOf(a, x) == (a.v + a.d * (x - a.off)) % 256
(* F[g][p]: the fences between phase p and p + 1 of group g: a subset of {"l", "g"} *)
Ordered(F, a, b) == a.g = b.g /\ \E p \in 1..Len(F[a.g]) : ((a.p <= p /\ p < b.p) \/ (b.p <= p /\ p < a.p)) /\ a.sp \in F[a.g][p]
Touch(a, b) == a.sp = b.sp /\ (a.sp = "l" => a.g = b.g) /\ a.off < b.off + b.n /\ b.off < a.off + a.n
Conflict(F, a, b) == <<a.g, a.i>> # <<b.g, b.i>> /\ Touch(a, b) /\ (Writes(a) \/ Writes(b)) /\ ~(Atomic(a) /\ Atomic(b)) /\ ~Ordered(F, a, b)
(* writes of the same value do not count if these are allowed; must/may differ where a value is not known *)
Same(a, b, x) == a.k = "st" /\ b.k = "st" /\ a.v # -1 /\ b.v # -1 /\ ByteOf(a, x) = ByteOf(b, x)
MaySame(a, b, x) == a.k = "st" /\ b.k = "st" /\ (a.v = -1 \/ b.v = -1 \/ ByteOf(a, x) = ByteOf(b, x))
Overlap(a, b) == (IF a.off > b.off THEN a.off ELSE b.off)..((IF a.off + a.n < b.off + b.n THEN a.off + a.n ELSE b.off + b.n) - 1)
MustBytes(a, b, uniformAllowed) == {x \in Overlap(a, b) : ~(uniformAllowed /\ MaySame(a, b, x))}
MayBytes(a, b, uniformAllowed) == {x \in Overlap(a, b) : ~(uniformAllowed /\ Same(a, b, x))}
(* an atomic operation both reads and writes *)
RW(a, b) == a.k # "st" \/ b.k # "st"
WW(a, b) == Writes(a) /\ Writes(b)
(* all pairs of accesses that race, each pair once *)
Pairs(F, A) == {<<x, y>> \in (1..Len(A)) \X (1..Len(A)) : x < y /\ Conflict(F, A[x], A[y])}
=============================================================================
