------------------------------ MODULE QueueGen ------------------------------
(* Random histories of host calls. The runtime's part is not scheduled here
   (the driver observes it); the generator only avoids waiting for user
   events that nobody will complete. *)
EXTENDS Queue, Rnd, Json
CONSTANTS NC, MaxOps, PFail
VARIABLES h, phase, waitable, ncb, step
gvars == <<qvars, h, phase, waitable, ncb>>   \* n counts steps

Kinds == <<"native", "native", "write", "write", "read", "fill", "copy", "wrect", "rrect", "crect", "kernel", "kernel",
           "map", "unmap", "marker", "barrier", "marker10", "barrier10", "waitev10", "migrate", "task", "fillimg",
           "readimg", "writeimg", "mapimg", "copyimg">>
Norm(k) == CASE k \in {"marker", "marker10"} -> "marker"
             [] k \in {"barrier", "barrier10", "waitev10"} -> "barrier"
             [] OTHER -> k
Blocking == {"write", "read", "wrect", "rrect", "map", "readimg", "writeimg", "mapimg"}

Unset == {u \in Users : ust[u] = 1}
Blocked(c) == UserDeps(c) \cap Unset # {}
QBlocked(q) == {u \in Unset : \E c \in Cmds : cmds[c].q = q /\ u \in UserDeps(c)}

Log(r) == h' = Append(h, r)
Skip == UNCHANGED gvars
AnyEv == waitable \cup {UserBase + u : u \in Users}

WaitSet(n, a, b, c) == IF AnyEv = {} THEN {}
                       ELSE LET E == AnyEv IN CASE n % 6 < 2 -> {}
                              [] n % 6 < 4 -> {Nth(E, a)}
                              [] n % 6 = 4 -> {Nth(E, a), Nth(E, b)}
                              [] OTHER -> {Nth(E, a), Nth(E, b), Nth(E, c)}
WithDup(s, k) == IF Len(s) > 0 /\ k % 8 = 0 THEN s \o <<s[1 + ((k \div 8) % Len(s))]>> ELSE s

DoEnq(r) ==
  LET q == Rng(NQ, r[2])
      k0 == NthSeq(Kinds, r[3])
      w0 == IF k0 \in {"marker10", "barrier10"} THEN {} ELSE WaitSet(r[4], r[5], r[6], r[7])
      \* clEnqueueWaitForEvents with no events is not valid
      k == IF k0 = "waitev10" /\ w0 = {} THEN "barrier10" ELSE k0
      ev == k \notin {"barrier10", "waitev10"} /\ Chance(85, r[8])
      c == Len(cmds) + 1
      blk == \/ QBlocked(q) # {}
             \/ \E e \in w0 : IF IsUser(e) THEN (e - UserBase) \in Unset ELSE Blocked(e)
  IN /\ Enqueue(q, Norm(k), w0)
     /\ Log([o |-> "enq", c |-> c, q |-> q, k |-> k, w |-> WithDup(Ordering(w0, r[9]), r[10]), ev |-> ev,
             bl |-> k \in Blocking /\ Chance(25, r[11]) /\ ~blk])
     /\ waitable' = IF ev THEN waitable \cup {c} ELSE waitable
     /\ UNCHANGED <<phase, ncb>>

DoSetU(r) ==
  IF Unset = {} THEN Skip
  ELSE LET u == Nth(Unset, r[2])
           v == IF Chance(PFail, r[3]) THEN - Rng(60, r[4]) ELSE 0
       IN SetUser(u, v) /\ Log([o |-> "setu", u |-> u, v |-> v]) /\ UNCHANGED <<phase, waitable, ncb>>

(* waiting for a queue with open user events needs a second thread that completes them meanwhile *)
DoFinish(r) ==
  LET q == Rng(NQ, r[2])
      us == Ordering(QBlocked(q), r[3])
      vals == [i \in 1..Len(us) |-> IF Chance(PFail, r[8 + i]) THEN -7 ELSE 0]
      op == IF r[4] % 3 = 0 THEN "flush" ELSE "finish"
  IN IF us = <<>>
     THEN Log([o |-> op, q |-> q, set |-> <<>>]) /\ UNCHANGED <<qvars, phase, waitable, ncb>>
     ELSE IF r[5] % 3 = 0
     THEN /\ Log([o |-> op, q |-> q, set |-> [i \in 1..Len(us) |-> <<us[i], vals[i]>>]])
          /\ ust' = [u \in Users |-> IF \E i \in 1..Len(us) : us[i] = u
                                     THEN vals[CHOOSE i \in 1..Len(us) : us[i] = u] ELSE ust[u]]
          /\ UNCHANGED <<ooo, cmds, st, phase, waitable, ncb>>
     ELSE Skip

DoWait(r) ==
  LET E == {e \in waitable : ~Blocked(e)} \cup {UserBase + u : u \in Users \ Unset}
  IN IF E = {} THEN Skip
     ELSE LET s == IF r[2] % 2 = 0 THEN {Nth(E, r[3])} ELSE {Nth(E, r[3]), Nth(E, r[4]), Nth(E, r[5])}
          IN Log([o |-> "waitev", l |-> WithDup(Ordering(s, r[6]), r[7])]) /\ UNCHANGED <<qvars, phase, waitable, ncb>>

DoQuery(r) == IF AnyEv = {} THEN Skip
              ELSE Log([o |-> "query", e |-> Nth(AnyEv, r[2])]) /\ UNCHANGED <<qvars, phase, waitable, ncb>>
DoCb(r) == IF AnyEv = {} THEN Skip
           ELSE /\ Log([o |-> "addcb", e |-> Nth(AnyEv, r[2]), id |-> ncb + 1, t |-> r[3] % 3])
                /\ ncb' = ncb + 1
                /\ UNCHANGED <<qvars, phase, waitable>>
(* the application gives up its event handle while the command may be pending *)
DoRelEv(r) == IF waitable = {} THEN Skip
              ELSE LET e == Nth(waitable, r[2]) IN
                   /\ Log([o |-> "relev", e |-> e])
                   /\ waitable' = waitable \ {e}
                   /\ UNCHANGED <<qvars, phase, ncb>>

GInit == /\ \E o \in [Queues -> BOOLEAN] : QInit(o)
         /\ step = 0
         /\ h = <<>> /\ phase = "run" /\ waitable = {} /\ ncb = 0

Step(r) == LET p == r[1] % 100 IN
           IF p < 48 THEN (IF Len(cmds) < NC THEN DoEnq(r) ELSE Skip)
           ELSE IF p < 58 THEN DoSetU(r)
           ELSE IF p < 67 THEN DoFinish(r)
           ELSE IF p < 76 THEN DoWait(r)
           ELSE IF p < 86 THEN DoQuery(r)
           ELSE IF p < 97 THEN DoCb(r)
           ELSE DoRelEv(r)

(* at the end every user event is completed, then every queue is waited for or released *)
Drain(r) == IF Unset # {} THEN DoSetU(r)
            ELSE /\ phase' = "done"
                 /\ h' = h \o [i \in 1..NQ |-> [o |-> IF r[4 + i] % 2 = 0 THEN "finish" ELSE "relq", q |-> i, set |-> <<>>]]
                 /\ UNCHANGED <<qvars, waitable, ncb>>

GNext == step' = step + 1 /\ \E r \in {Draw(step)} :
         \/ phase = "run" /\ Len(h) < MaxOps /\ Step(r)
         \/ phase = "run" /\ Len(h) >= MaxOps /\ phase' = "drain" /\ UNCHANGED <<qvars, h, waitable, ncb>>
         \/ phase = "drain" /\ Drain(r)
Emit == phase = "done" => PrintT(<<"T", ToJson([ooo |-> ooo, ops |-> h])>>)
=============================================================================
