---------------------------- MODULE NDRangeTrace -----------------------------
(* Acceptor: is a recorded kernel execution a behaviour of NDRange? Each line  *)
(* of TRACES is a run [dim, g, l, o, nulll, uni, ev].                          *)
EXTENDS NDRange, TLC, Json, IOUtils
VARIABLES tr, pos, seen
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
Cur == Ev[pos]
Launch(t, l) == [dim |-> t.dim, g |-> t.g, l |-> l, o |-> t.o]
(* a work-group size left to the runtime may be any that is allowed *)
TInit == /\ tr \in 1..Len(Traces) /\ pos = 1 /\ seen = {}
         /\ LET t == Traces[tr] IN
            IF t.nulll THEN /\ \A d \in 1..3 : t.ll[d] >= 1 /\ (t.uni => t.g[d] % t.ll[d] = 0) /\ (d > t.dim => t.ll[d] = 1)
                            /\ NInit(Launch(t, t.ll))
            ELSE NInit(Launch(t, t.l))
Step == CASE Cur.t = "gb" -> BeginGroup(Cur.w) /\ Cur.s = GroupSize(L, Cur.w) /\ UNCHANGED seen
          [] Cur.t = "gc" -> EndGroup(Cur.w) /\ UNCHANGED seen
          [] Cur.t = "ib" -> BeginItem(Cur.i) /\ Cur.w = GroupOf(L, Cur.i) /\ Cur.l = LocalOf(L, Cur.i) /\ UNCHANGED seen
          [] Cur.t = "ic" -> EndItem(Cur.i) /\ UNCHANGED seen
          [] Cur.t = "ke" -> End /\ UNCHANGED seen
          (* a record left by the kernel: how often the item ran, and what its functions returned *)
          [] Cur.t = "v" -> ended /\ Cur.i \in AllItems(L) \ seen /\ Cur.n = 1 /\ Cur.v = Values(L, Cur.i) /\ seen' = seen \cup {Cur.i} /\ UNCHANGED nvars
TNext == pos <= Len(Ev) /\ Step /\ pos' = pos + 1 /\ UNCHANGED tr
Accepted == pos = Len(Ev) + 1 /\ ended /\ seen = AllItems(L)
Report == /\ Accepted => PrintT(<<"ACC", tr>>)
          /\ "PROGRESS" \in DOMAIN IOEnv => PrintT(<<"POS", tr, pos>>)
=============================================================================
