------------------------------- MODULE QueueMC -------------------------------
(* Exhaustive check of Queue for all histories of up to NC commands. *)
EXTENDS Queue
CONSTANT NC
VARIABLE order     \* sequence of effects
vars == <<qvars, order>>
KindsMC == {"op", "barrier", "marker"}
Events == Cmds \cup {UserBase + u : u \in Users}
MCInit == \E o \in [Queues -> BOOLEAN] : QInit(o) /\ order = <<>>
MCNext == \/ /\ Len(cmds) < NC
             /\ \E q \in Queues, k \in KindsMC, w \in SUBSET Events :
                   Cardinality(w) <= 2 /\ Enqueue(q, k, w)
             /\ UNCHANGED order
          \/ \E u \in Users, v \in {0, -1} : SetUser(u, v) /\ UNCHANGED order
          \/ \E c \in Cmds : Execute(c) /\ order' = Append(order, c)
          \/ \E c \in Cmds : Fail(c) /\ UNCHANGED order
MCSpec == MCInit /\ [][MCNext]_vars
Pos(c) == IF \E i \in 1..Len(order) : order[i] = c THEN CHOOSE i \in 1..Len(order) : order[i] = c ELSE 0
ExactlyOnce == \A i, j \in 1..Len(order) : order[i] = order[j] => i = j
Ordered == \A i \in 1..Len(order) : LET c == order[i] IN
             /\ \A e \in cmds[c].w : IsUser(e) \/ (Pos(e) > 0 /\ Pos(e) < i)
             /\ \A d \in Implicit(c) : st[d] = "failed" \/ (Pos(d) > 0 /\ Pos(d) < i)
EffectIffDone == \A c \in Cmds : (Pos(c) > 0) <=> st[c] = "done"
=============================================================================
