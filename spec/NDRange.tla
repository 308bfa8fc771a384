------------------------------ MODULE NDRange --------------------------------
(* How an NDRange is executed: work-groups are begun in any order, by any     *)
(* number of workers; each begins its work-items in any order; a group ends   *)
(* after its items, the launch after its groups.                              *)
EXTENDS Integers, Sequences, FiniteSets
(* a launch: [dim, g, l, o], each of g (global size), l (local size), o (offset) three numbers *)
Ceil(a, b) == (a + b - 1) \div b
NumGroups(L) == [d \in 1..3 |-> Ceil(L.g[d], L.l[d])]
Groups(L) == LET n == NumGroups(L) IN {<<x, y, z>> : x \in 0..(n[1] - 1), y \in 0..(n[2] - 1), z \in 0..(n[3] - 1)}
Min(a, b) == IF a < b THEN a ELSE b
GroupSize(L, w) == [d \in 1..3 |-> Min(L.l[d], L.g[d] - w[d] * L.l[d])]
Items(L, w) == LET s == GroupSize(L, w) IN
  {[d \in 1..3 |-> L.o[d] + w[d] * L.l[d] + i[d]] : i \in {<<x, y, z>> : x \in 0..(s[1] - 1), y \in 0..(s[2] - 1), z \in 0..(s[3] - 1)}}
AllItems(L) == {[d \in 1..3 |-> L.o[d] + i[d]] : i \in {<<x, y, z>> : x \in 0..(L.g[1] - 1), y \in 0..(L.g[2] - 1), z \in 0..(L.g[3] - 1)}}
GroupOf(L, i) == [d \in 1..3 |-> (i[d] - L.o[d]) \div L.l[d]]
LocalOf(L, i) == [d \in 1..3 |-> (i[d] - L.o[d]) % L.l[d]]
(* what the work-item functions return in item i *)
Values(L, i) ==
  LET w == GroupOf(L, i) l == LocalOf(L, i) s == GroupSize(L, w) n == NumGroups(L)
      D(f, x) == <<f[1], f[2], f[3], x>>                    \* dimensions 0, 1, 2 and one that does not exist
  IN D(i, 0) \o D(l, 0) \o D(w, 0) \o D(L.g, 1) \o D(s, 1) \o D(L.l, 1) \o D(n, 1) \o D(L.o, 0)
     \o <<L.dim, ((i[3] - L.o[3]) * L.g[2] + (i[2] - L.o[2])) * L.g[1] + (i[1] - L.o[1]), (l[3] * s[2] + l[2]) * s[1] + l[1]>>
VARIABLES L,         \* the launch
          grp,       \* groups begun and not ended
          gdone,     \* groups ended
          run,       \* items begun and not ended
          done,      \* how often each item has ended
          ended      \* is the launch over?
nvars == <<L, grp, gdone, run, done, ended>>
NInit(l) == L = l /\ grp = {} /\ gdone = {} /\ run = {} /\ done = {} /\ ended = FALSE
BeginGroup(w) == ~ended /\ w \in Groups(L) \ (grp \cup gdone) /\ grp' = grp \cup {w} /\ UNCHANGED <<L, gdone, run, done, ended>>
BeginItem(i) == GroupOf(L, i) \in grp /\ i \in Items(L, GroupOf(L, i)) \ (run \cup done) /\ run' = run \cup {i} /\ UNCHANGED <<L, grp, gdone, done, ended>>
EndItem(i) == i \in run /\ run' = run \ {i} /\ done' = done \cup {i} /\ UNCHANGED <<L, grp, gdone, ended>>
EndGroup(w) == w \in grp /\ Items(L, w) \subseteq done /\ grp' = grp \ {w} /\ gdone' = gdone \cup {w} /\ UNCHANGED <<L, run, done, ended>>
End == ~ended /\ gdone = Groups(L) /\ ended' = TRUE /\ UNCHANGED <<L, grp, gdone, run, done>>
=============================================================================
