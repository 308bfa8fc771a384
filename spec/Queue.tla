-------------------------------- MODULE Queue --------------------------------
(***************************************************************************)
(* Command queues, events and user events of the OpenCL runtime.           *)
(*                                                                         *)
(* Abstract state machine: the host enqueues commands and completes user   *)
(* events; the runtime executes commands (an instantaneous effect) or      *)
(* terminates them with an error, in any order the rules below allow.      *)
(* Used by QueueMC (exhaustive check), QueueGen (behaviours for the        *)
(* driver) and QueueTrace (acceptor for recorded runs).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NQ,      \* number of queues
          NU       \* number of user events

VARIABLES ooo,     \* ooo[q]: queue q executes out of order
          cmds,    \* sequence of records [q, k, w]: queue, kind, wait list (set of event ids)
          st,      \* st[c] \in {"queued", "done", "failed"}
          ust      \* ust[u]: 1 (submitted), 0 (complete), or a negative error

qvars == <<ooo, cmds, st, ust>>

Queues == 1..NQ
UserBase == 1000                       \* event ids: c for command c, UserBase+u for user event u
IsUser(e) == e > UserBase
Cmds == 1..Len(cmds)
Users == 1..NU

(* events *)
EvOk(e) == IF IsUser(e) THEN ust[e - UserBase] = 0 ELSE st[e] = "done"
EvFailed(e) == IF IsUser(e) THEN ust[e - UserBase] < 0 ELSE st[e] = "failed"
EvTerminal(e) == EvOk(e) \/ EvFailed(e)

(* order imposed by the queue *)
Blocks(c) == cmds[c].k = "barrier"
Implicit(c) == {d \in 1..(c-1) : /\ cmds[d].q = cmds[c].q
                                 /\ \/ ~ooo[cmds[c].q]
                                    \/ Blocks(d)
                                    \/ cmds[c].k \in {"barrier", "marker"} /\ cmds[c].w = {} }

QInit(o) == /\ ooo = o
            /\ cmds = <<>>
            /\ st = <<>>
            /\ ust = [u \in Users |-> 1]

Enqueue(q, k, w) == /\ cmds' = Append(cmds, [q |-> q, k |-> k, w |-> w])
                    /\ st' = Append(st, "queued")
                    /\ UNCHANGED <<ooo, ust>>

SetUser(u, v) == /\ ust[u] = 1
                 /\ ust' = [ust EXCEPT ![u] = v]
                 /\ UNCHANGED <<ooo, cmds, st>>

CanExecute(c) == /\ st[c] = "queued"
                 /\ \A d \in Implicit(c) : st[d] # "queued"
                 /\ \A e \in cmds[c].w : EvOk(e)
Execute(c) == /\ CanExecute(c)
              /\ st' = [st EXCEPT ![c] = "done"]
              /\ UNCHANGED <<ooo, cmds, ust>>

CanFail(c) == st[c] = "queued" /\ \E e \in cmds[c].w : EvFailed(e)
Fail(c) == /\ CanFail(c)
           /\ st' = [st EXCEPT ![c] = "failed"]
           /\ UNCHANGED <<ooo, cmds, ust>>

Finished(q) == \A c \in Cmds : cmds[c].q = q => st[c] # "queued"

(* everything command c transitively waits for *)
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {Implicit(c) \cup {e \in cmds[c].w : ~IsUser(e)} : c \in S}
              IN IF T = S THEN S ELSE Closure(T)
UserDeps(c) == UNION {{e - UserBase : e \in {x \in cmds[d].w : IsUser(x)}} : d \in Closure({c})}

-----------------------------------------------------------------------------
(* Safety stated independently of the guards, over the order of effects.   *)
TypeOK == /\ DOMAIN st = Cmds
          /\ \A c \in Cmds : /\ cmds[c].q \in Queues
                             /\ st[c] \in {"queued", "done", "failed"}
                             /\ \A e \in cmds[c].w : IsUser(e) \/ e < c

(* no command whose dependencies all ended can be stuck *)
NoneStuck == (\A u \in Users : ust[u] # 1) /\ (\E c \in Cmds : st[c] = "queued")
             => \E c \in Cmds : CanExecute(c) \/ CanFail(c)

(* the outcome does not depend on the schedule: it fails iff something in
   its transitive wait lists failed *)
RECURSIVE ExplicitClosure(_)
ExplicitClosure(S) == LET T == S \cup UNION {{e \in cmds[c].w : ~IsUser(e)} : c \in S}
                      IN IF T = S THEN S ELSE ExplicitClosure(T)
MustFail(c) == \E d \in ExplicitClosure({c}) : \E e \in cmds[d].w : IsUser(e) /\ ust[e - UserBase] < 0
OutcomeDetermined == \A c \in Cmds : /\ st[c] = "failed" => MustFail(c)
                                     /\ st[c] = "done" => ~MustFail(c)

Monotone == [][\A c \in Cmds : st[c] # "queued" => st'[c] = st[c]]_qvars
=============================================================================
