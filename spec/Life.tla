--------------------------------- MODULE Life ---------------------------------
(***************************************************************************)
(* Lifetimes of the runtime's objects. An object is alive while the        *)
(* application holds a reference, or something alive depends on it; a      *)
(* pending command is alive by itself. Destruction happens exactly when    *)
(* an object stops being alive.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES objs,   \* sequence of [k |-> kind, par |-> set of objects it depends on]
          app     \* app[o]: references the application holds (for a command: 1 while pending)
lvars == <<objs, app>>

Objs == 1..Len(objs)
Kind(o) == objs[o].k
Roots == {o \in Objs : app[o] > 0}
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {objs[o].par : o \in S} IN IF T = S THEN S ELSE Reach(T)
Alive == Reach(Roots)
Count(o) == app[o] + Cardinality({x \in Alive : o \in objs[x].par})

LInit == objs = <<>> /\ app = <<>>
Create(k, par) == objs' = Append(objs, [k |-> k, par |-> par]) /\ app' = Append(app, 1)
(* a command and the event that stands for it *)
CreateCmd(par, ctx, ev) == /\ objs' = objs \o <<[k |-> "event", par |-> {ctx}], [k |-> "cmd", par |-> par \cup {Len(objs) + 1}]>>
                           /\ app' = app \o <<IF ev THEN 1 ELSE 0, 1>>
Retain(o) == app[o] > 0 /\ app' = [app EXCEPT ![o] = @ + 1] /\ UNCHANGED objs
Release(o) == app[o] > 0 /\ app' = [app EXCEPT ![o] = @ - 1] /\ UNCHANGED objs
=============================================================================
