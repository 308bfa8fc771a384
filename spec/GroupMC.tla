------------------------------- MODULE GroupMC -------------------------------
(* Small groups, every interleaving of their items: the outcome of a group    *)
(* whose items do not interfere between barriers does not depend on it.       *)
EXTENDS Group, TLC
VARIABLES g, g0
W(s, k, v) == [o |-> "w", sp |-> s, k |-> k, v |-> v]
R(s, k) == [o |-> "r", sp |-> s, k |-> k]
B(s) == [o |-> "b", site |-> s, f |-> 1]
Cp(dir, st, slot, chain) == [o |-> "cp", site |-> 1, dir |-> dir, sp |-> "la", dst |-> IF dir = "in" THEN 0 ELSE 8, src |-> 0, n |-> 2, st |-> st, sz |-> 2, slot |-> slot, chain |-> chain]
Wt(s) == [o |-> "wt", site |-> 1, slots |-> s]
(* programs in phases: what item i may do before the k-th synchronisation *)
Phase(i) == {<<>>, <<W("lb", i, 50 + i)>>, <<W("lb", i, 60 + i), R("lb", i)>>, <<R("l0", 1)>>}
Syncs == {<<B(1)>>, <<B(2)>>, <<Cp("in", 1, 1, 0), Wt(<<1>>)>>, <<Cp("in", 2, 1, 0), Wt(<<1>>)>>, <<Cp("out", 2, 1, 0)>>, <<>>, <<Cp("in", 1, 1, 0), Cp("out", 1, 2, 1), Wt(<<2>>)>>}
LastOps(i) == {<<R("lb", (i % 2) + 1)>>, <<R("la", 1), R("la", 2)>>}
Init == /\ \E p1 \in Phase(1), p2 \in Phase(2), s1 \in Syncs, s2 \in Syncs, l1 \in LastOps(1), l2 \in LastOps(2) :
             g = GInit(<<p1 \o s1 \o l1, p2 \o s2 \o l2>>)
        /\ g0 = Outcome(g)
Next == /\ UNCHANGED g0
        /\ \/ \E i \in 1..N(g) : Running(g, i) /\ g' = Step(g, i)
           \/ Quiet(g) /\ ~Over(g) /\ g' = Sync(g)
           \/ Over(g) /\ g # Final(g) /\ g' = Final(g)
(* the same kinds of report, or none; and without reports the same observations and memory *)
HasSync(P) == \A i \in 1..2 : \E k \in 1..Len(P[i]) : P[i][k].o \in {"b", "wt"}
Same == Over(g) /\ g = Final(g) =>
          /\ (g.rep = {}) = (g0.rep = {})
          /\ (g.rep = {} /\ HasSync(g.P)) => /\ g.obs = g0.obs
                                             /\ \A s \in Spaces : \A k \in 1..SizeOf(s) : g.mem[s][k] = g0.mem[s][k]
(* an item never runs past a synchronisation some other item has not reached *)
Past(i) == Cardinality({k \in 1..(g.pc[i] - 1) : g.P[i][k].o \in {"b", "wt"}})
Held == \A i, j \in 1..N(g) : Past(i) = Past(j)
Terminates == Over(g) \/ Quiet(g) \/ \E i \in 1..N(g) : Running(g, i)
=============================================================================
