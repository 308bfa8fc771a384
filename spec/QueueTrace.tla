----------------------------- MODULE QueueTrace -----------------------------
(* Acceptor: is a recorded run of the runtime a behaviour of Queue?
   Each line of the file named by the environment variable TRACES is one run:
   a record [nq, nu, ooo, ev], ev a sequence of observations in the order in
   which they were made. Commands without an observable effect and failures
   are scheduled by TLC wherever the specification allows. *)
EXTENDS Queue, TLC, Json, IOUtils, SequencesExt
VARIABLES tr,     \* number of the run
          pos,    \* next observation
          cbs     \* callbacks: [id |-> n, e |-> event, n |-> times called]
tvars == <<qvars, tr, pos, cbs>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
Cur == Ev[pos]
Set(s) == {s[i] : i \in 1..Len(s)}

(* CL_COMMAND_* of each call *)
TypeOf(k) == CASE k = "kernel" -> 4592 [] k = "task" -> 4593 [] k = "native" -> 4594
               [] k = "read" -> 4595 [] k = "write" -> 4596 [] k = "copy" -> 4597
               [] k = "map" -> 4603 [] k = "unmap" -> 4605
               [] k \in {"marker", "marker10"} -> 4606 [] k = "barrier" -> 4613
               [] k = "rrect" -> 4609 [] k = "wrect" -> 4610 [] k = "crect" -> 4611
               [] k = "migrate" -> 4614 [] k = "fill" -> 4615 [] k = "fillimg" -> 4616
               [] k = "readimg" -> 4598 [] k = "writeimg" -> 4599 [] k = "copyimg" -> 4600
               [] k = "mapimg" -> 4604
Norm(k) == CASE k \in {"marker", "marker10"} -> "marker"
             [] k \in {"barrier", "barrier10", "waitev10"} -> "barrier"
             [] OTHER -> k
Observable(k) == k \notin {"marker", "barrier", "migrate"}

TInit == /\ tr \in 1..Len(Traces)
         /\ pos = 1 /\ cbs = <<>>
         /\ QInit([q \in Queues |-> IF q <= Len(Traces[tr].ooo) THEN Traces[tr].ooo[q] ELSE FALSE])

Stay == UNCHANGED qvars
Status(e) == IF IsUser(e) THEN ust[e - UserBase] ELSE 0

Consume ==
  /\ pos <= Len(Ev)
  /\ pos' = pos + 1 /\ tr' = tr
  /\ CASE Cur.t = "enq" -> Enqueue(Cur.q, Norm(Cur.k), Set(Cur.w)) /\ UNCHANGED cbs
       [] Cur.t = "x" -> Cur.c \in Cmds /\ Execute(Cur.c) /\ UNCHANGED cbs
       [] Cur.t = "setu" -> SetUser(Cur.u, Cur.v) /\ UNCHANGED cbs
       [] Cur.t = "fin" -> Finished(Cur.q) /\ Stay /\ UNCHANGED cbs
       [] Cur.t = "wait" -> /\ \A e \in Set(Cur.l) : EvTerminal(e)
                            /\ Cur.r = (IF \E e \in Set(Cur.l) : EvFailed(e) THEN -14 ELSE 0)
                            /\ Stay /\ UNCHANGED cbs
       [] Cur.t = "waited" -> (\A e \in Set(Cur.l) : EvTerminal(e)) /\ Stay /\ UNCHANGED cbs
       [] Cur.t = "ended" ->        \* a blocking call has returned; it tells if what it waits for failed
            /\ st[Cur.c] # "queued"
            /\ "r" \in DOMAIN Cur => Cur.r = (IF \E e \in cmds[Cur.c].w : EvFailed(e) THEN -14 ELSE 0)
            /\ Stay /\ UNCHANGED cbs
       [] Cur.t = "status" ->       \* clGetEventInfo
            /\ CASE Cur.s = 0 -> EvOk(Cur.e)
                 [] Cur.s < 0 -> EvFailed(Cur.e) /\ (IsUser(Cur.e) => Cur.s = Status(Cur.e))
                 [] OTHER -> ~EvTerminal(Cur.e) /\ (IsUser(Cur.e) => Cur.s = 2)
            /\ Stay /\ UNCHANGED cbs
       [] Cur.t = "addcb" -> cbs' = Append(cbs, [id |-> Cur.id, e |-> Cur.e, n |-> 0]) /\ Stay
       [] Cur.t = "cb" ->
            /\ \E i \in 1..Len(cbs) :
                 /\ cbs[i].id = Cur.id /\ cbs[i].n = 0
                 /\ IF Cur.s = 0 THEN EvOk(cbs[i].e) ELSE Cur.s < 0 /\ EvFailed(cbs[i].e)
                 /\ cbs' = [cbs EXCEPT ![i].n = 1]
            /\ Stay
       [] Cur.t = "end" -> Stay /\ UNCHANGED cbs
       [] Cur.t = "type" -> Cur.s = TypeOf(Cur.k) /\ Stay /\ UNCHANGED cbs
       [] Cur.t = "buf" -> (Cur.v = 1) = (st[Cur.c] = "done") /\ Cur.v \in {0, 1} /\ Stay /\ UNCHANGED cbs
       [] Cur.t = "prof" ->         \* ranks of the profiling times of every finished command
            LET P == Cur.p
                Has(c) == \E i \in 1..Len(P) : P[i][1] = c
                T(c, j) == P[CHOOSE i \in 1..Len(P) : P[i][1] = c][j + 1]
            IN /\ \A c \in Cmds : Has(c) /\ st[c] = "done" =>
                    /\ T(c, 1) <= T(c, 2) /\ T(c, 2) <= T(c, 3) /\ T(c, 3) <= T(c, 4)
                    /\ \A d \in Implicit(c) \cup {e \in cmds[c].w : ~IsUser(e)} :
                         Has(d) /\ st[d] = "done" => T(d, 4) <= T(c, 3)
                    /\ \A d \in 1..(c - 1) : Has(d) /\ st[d] = "done" => T(d, 1) <= T(c, 1)
               /\ Stay /\ UNCHANGED cbs

Hidden == /\ \E c \in Cmds : \/ ~Observable(cmds[c].k) /\ Execute(c)
                             \/ Fail(c)
          /\ pos <= Len(Ev)
          /\ UNCHANGED <<tr, pos, cbs>>

TNext == Consume \/ Hidden

AtEnd == /\ pos = Len(Ev) + 1
         /\ \A c \in Cmds : st[c] # "queued"
         /\ \A i \in 1..Len(cbs) : cbs[i].n = 1
Report == /\ AtEnd => PrintT(<<"ACC", tr>>)
          /\ "PROGRESS" \in DOMAIN IOEnv => PrintT(<<"POS", tr, pos>>)
=============================================================================
