-------------------------------- MODULE LifeMC --------------------------------
(* Exhaustive check, for all small object graphs, that counting references   *)
(* (as an implementation would: destroy at zero, then release what the       *)
(* object held) destroys exactly the objects that are not alive.             *)
EXTENDS Life
CONSTANTS MaxObjs, MaxRef
VARIABLE rc     \* counters of the counting implementation; -1 once destroyed
vars == <<lvars, rc>>

RECURSIVE Drop(_, _)
Drop(c, todo) == IF todo = <<>> THEN c
                 ELSE LET o == Head(todo) IN
                      IF c[o] > 1 THEN Drop([c EXCEPT ![o] = @ - 1], Tail(todo))
                      ELSE Drop([c EXCEPT ![o] = -1],
                                LET S == objs[o].par
                                    RECURSIVE seq(_)
                                    seq(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o seq(T \ {x})
                                IN seq(S) \o Tail(todo))
Init == LInit /\ rc = <<>>
Next == \/ /\ Len(objs) < MaxObjs
           /\ \E par \in SUBSET Roots : Cardinality(par) <= 2 /\ Create("o", par)
                /\ rc' = [o \in 1..(Len(objs) + 1) |-> IF o > Len(objs) THEN 1 ELSE IF o \in par THEN rc[o] + 1 ELSE rc[o]]
        \/ \E o \in Objs : app[o] < MaxRef /\ Retain(o) /\ rc' = [rc EXCEPT ![o] = @ + 1]
        \/ \E o \in Objs : Release(o) /\ rc' = Drop(rc, <<o>>)
Spec == Init /\ [][Next]_vars
Counted == \A o \in Objs : rc[o] = IF o \in Alive THEN Count(o) ELSE -1
ParentsAlive == \A o \in Alive : objs[o].par \subseteq Alive
Final == [][\A o \in Objs : o \notin Alive => o \notin Alive']_vars
=============================================================================
