------------------------------- MODULE LifeGen -------------------------------
(* Random histories of creating, using, retaining and releasing objects, with *)
(* the reference counts, destructor callbacks and freed memory after each.    *)
EXTENDS Life, Rnd, Json
CONSTANTS MaxOps, MaxCtx
VARIABLES cbs,    \* cbs[o]: destructor callbacks registered, oldest first
          args,   \* args[o]: for a kernel, the memory objects set as its two arguments (0: none, -1: NULL)
          fired,  \* user events that were completed
          cq,     \* cq[o]: for a pending command, its queue
          h, step, phase
gvars == <<lvars, cbs, args, cq, fired>>

Mems == {"buffer", "sub", "imgbuf", "image"}
Of(k) == {o \in Roots : Kind(o) = k}
OfAny(K) == {o \in Roots : Kind(o) \in K}
RECURSIVE Ctx(_)
Ctx(o) == IF Kind(o) = "ctx" THEN o ELSE LET p == CHOOSE p \in objs[o].par : TRUE IN Ctx(p)
PendingOn(q) == {c \in Objs : Kind(c) = "cmd" /\ app[c] > 0 /\ cq[c] = q}
Gate(c) == {e \in objs[c].par : Kind(e) = "uevent"}

SortedSeq(S) == LET RECURSIVE f(_) f(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o f(T \ {m}) IN f(S)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* what can be seen after the step (primed state), given what was alive before *)
Seen(before) ==
  LET died == before \ Alive'
      counted == {o \in DOMAIN objs' : app'[o] > 0 /\ objs'[o].k \notin {"ctx", "cmd"}}
      withcb == {o \in died : o <= Len(cbs) /\ cbs[o] # <<>>}
  IN [rc |-> [i \in 1..Cardinality(counted) |-> LET o == SortedSeq(counted)[i] IN
              <<o, app'[o] + Cardinality({x \in Alive' : o \in objs'[x].par})>>],
      cb |-> [i \in 1..Cardinality(withcb) |-> LET o == SortedSeq(withcb)[i] IN <<o, Rev(cbs[o])>>],
      de |-> SortedSeq({o \in died : objs[o].k \in {"buffer", "image"}})]
Log(r) == h' = Append(h, r @@ [x |-> Seen(Alive)])
Grow == /\ cbs' = [o \in DOMAIN objs' |-> IF o <= Len(cbs) THEN cbs[o] ELSE <<>>]
        /\ args' = [o \in DOMAIN objs' |-> IF o <= Len(args) THEN args[o] ELSE <<0, 0>>]
Keep == UNCHANGED <<cbs, args, cq, fired>>
Skip == UNCHANGED <<gvars, h>>

DoCreate(r) ==
  LET New(k, par, extra) == /\ Create(k, par) /\ Grow /\ cq' = Append(cq, 0) /\ UNCHANGED fired
                            /\ Log([o |-> "create", k |-> k, id |-> Len(objs) + 1, par |-> SortedSeq(par)] @@ extra)
      C == Of("ctx")
      p == r[2] % 100
  IN IF C = {} \/ (p < 4 /\ Cardinality({o \in Objs : Kind(o) = "ctx"}) < MaxCtx)
     THEN IF Cardinality({o \in Objs : Kind(o) = "ctx"}) < MaxCtx THEN New("ctx", {}, [z |-> 0]) ELSE Skip
     ELSE LET c == Nth(C, r[3]) IN
          IF p < 18 THEN New("queue", {c}, [ooo |-> r[4] % 2])
          ELSE IF p < 34 THEN New("buffer", {c}, [use |-> r[4] % 2])
          ELSE IF p < 46 THEN (IF Of("buffer") = {} THEN Skip ELSE New("sub", {Nth(Of("buffer"), r[4])}, [z |-> 0]))
          ELSE IF p < 56 THEN (IF OfAny({"buffer", "sub"}) = {} THEN Skip ELSE New("imgbuf", {Nth(OfAny({"buffer", "sub"}), r[4])}, [z |-> 0]))
          ELSE IF p < 64 THEN New("image", {c}, [z |-> 0])
          ELSE IF p < 70 THEN New("sampler", {c}, [z |-> 0])
          ELSE IF p < 78 THEN New("program", {c}, [z |-> 0])
          ELSE IF p < 90 THEN (IF Of("program") = {} THEN Skip ELSE New("kernel", {Nth(Of("program"), r[4])}, [z |-> 0]))
          ELSE New("uevent", {c}, [z |-> 0])

DoRef(r) == IF Roots \ {o \in Objs : Kind(o) = "cmd"} = {} THEN Skip
            ELSE LET o == Nth({x \in Roots : Kind(x) # "cmd"}, r[3]) IN
                 IF r[4] % 10 < 4 THEN Retain(o) /\ Keep /\ Log([o |-> "retain", id |-> o])
                 ELSE \* the last release of a queue waits for its commands
                      IF Kind(o) = "queue" /\ app[o] = 1 /\ PendingOn(o) # {} THEN Skip
                      ELSE IF Kind(o) = "uevent" /\ app[o] = 1 /\ \E c \in Objs : Kind(c) = "cmd" /\ app[c] > 0 /\ o \in objs[c].par THEN Skip
                      ELSE Release(o) /\ Keep /\ Log([o |-> "release", id |-> o])

DoCb(r) == LET S == OfAny(Mems \cup {"ctx"}) IN
           IF S = {} THEN Skip
           ELSE LET o == Nth(S, r[3]) IN
                /\ UNCHANGED <<lvars, args, cq, fired>>
                /\ cbs' = [cbs EXCEPT ![o] = Append(@, step)]
                /\ Log([o |-> "setcb", id |-> o, cb |-> step])

DoArg(r) == IF Of("kernel") = {} THEN Skip
            ELSE LET k == Nth(Of("kernel"), r[3])
                     M == {m \in OfAny({"buffer", "sub"}) : Ctx(m) = Ctx(k)}
                     i == Rng(2, r[5])
                 IN IF M = {} THEN Skip
                    ELSE LET m == IF r[6] % (IF args[k][i] > 0 THEN 3 ELSE 9) = 0 THEN -1 ELSE Nth(M, r[4]) IN
                         /\ UNCHANGED <<lvars, cbs, cq, fired>>
                         /\ args' = [args EXCEPT ![k] = [@ EXCEPT ![i] = m]]
                         /\ Log([o |-> "arg", id |-> k, i |-> i, m |-> m])

(* enqueue behind an unset user event: the command stays pending *)
DoEnq(r) ==
  IF Of("queue") = {} THEN Skip
  ELSE LET q == Nth(Of("queue"), r[3])
           c == Ctx(q)
           U == {u \in Of("uevent") : Ctx(u) = c /\ u \notin fired}
           M == {m \in OfAny({"buffer", "sub"}) : Ctx(m) = c}
           K == {k \in Of("kernel") : Ctx(k) = c /\ \A i \in 1..2 : args[k][i] # 0 /\ (args[k][i] > 0 => app[args[k][i]] > 0)
                                                          /\ (args[k][1] # args[k][2] \/ args[k][1] < 0)}
           ev == r[9] % 3 > 0
           EV == {e \in Of("event") : Ctx(e) = c}
           w == (IF EV # {} /\ r[10] % 3 = 0 THEN {Nth(EV, r[11])} ELSE {})
           Go(kind, u, deps, extra) ==
             /\ CreateCmd(deps \cup {u} \cup w, c, ev)
             /\ Grow
             /\ cq' = Append(Append(cq, 0), q)
             /\ UNCHANGED fired
             /\ Log([o |-> "enq", k |-> kind, id |-> Len(objs) + 2, ev |-> IF ev THEN Len(objs) + 1 ELSE 0, q |-> q, u |-> u, w |-> SortedSeq(w)] @@ extra)
       IN IF U = {} THEN Skip
          ELSE LET u == Nth(U, r[4]) p == r[5] % 10 IN
               IF p < 4 /\ K # {} THEN LET K1 == {x \in K : -1 \in {args[x][1], args[x][2]}} k == Nth(IF K1 # {} /\ r[12] % 2 = 0 THEN K1 ELSE K, r[6]) IN Go("kernel", u, {k} \cup ({args[k][i] : i \in 1..2} \ {-1}), [a |-> k, b |-> 0])
               ELSE IF p < 9 /\ M # {} THEN
                    LET a == Nth(M, r[6]) b == Nth(M, r[7])
                        kk == NthSeq(<<"write", "read", "fill", "copy", "map", "wrect">>, r[8])
                    IN IF kk = "copy" THEN (IF (Reach({a}) \cap Reach({b})) \ {c} # {} THEN Go("fill", u, {a}, [a |-> a, b |-> 0]) ELSE Go("copy", u, {a, b}, [a |-> a, b |-> b]))
                       ELSE Go(kk, u, {a}, [a |-> a, b |-> 0])
               ELSE Go("marker", u, {}, [a |-> 0, b |-> 0])

(* complete every gate that a command of the queue (or what it waits for) needs, and wait for the queue *)
Gated == {c \in Objs : Kind(c) = "cmd" /\ app[c] > 0}
DoDrain(r) ==
  LET G == Gated
      U == UNION {Gate(c) : c \in G}
      Q == {cq[c] : c \in G}
  IN IF G = {} THEN Skip
     ELSE /\ app' = [o \in Objs |-> IF o \in G THEN 0 ELSE app[o]]
          /\ UNCHANGED <<objs, cbs, args, cq>>
          /\ fired' = fired \cup U
          /\ Log([o |-> "drain", u |-> SortedSeq(U), q |-> SortedSeq(Q), fail |-> IF r[3] % 4 = 0 THEN 1 ELSE 0])

Step(r) == LET p == r[1] % 100 IN
           IF p < 38 THEN DoCreate(r)
           ELSE IF p < 62 THEN DoRef(r)
           ELSE IF p < 74 THEN DoCb(r)
           ELSE IF p < 82 THEN DoArg(r)
           ELSE IF p < 95 THEN DoEnq(r)
           ELSE DoDrain(r)

(* at the end everything is given back, in a random order *)
Finish(r) == IF Gated # {} /\ r[2] % 3 = 0 THEN DoDrain(r)
             ELSE LET S == {o \in Roots : Kind(o) # "cmd" /\ ~(Kind(o) = "queue" /\ app[o] = 1 /\ PendingOn(o) # {})
                                          /\ ~(Kind(o) = "uevent" /\ app[o] = 1 /\ \E c \in Gated : o \in objs[c].par)}
                  IN IF S = {} THEN DoDrain(r)
                     ELSE LET o == Nth(S, r[3]) IN Release(o) /\ Keep /\ Log([o |-> "release", id |-> o])

GInit == LInit /\ cbs = <<>> /\ args = <<>> /\ cq = <<>> /\ fired = {} /\ h = <<>> /\ step = 0 /\ phase = "run"
GNext == /\ step' = step + 1
         /\ \E r \in {Draw(step)} :
            \/ phase = "run" /\ Len(h) < MaxOps /\ step < 3 * MaxOps /\ Step(r) /\ UNCHANGED phase
            \/ phase = "run" /\ (Len(h) >= MaxOps \/ step >= 3 * MaxOps) /\ phase' = "end" /\ UNCHANGED <<gvars, h>>
            \/ phase = "end" /\ Roots # {} /\ Finish(r) /\ UNCHANGED phase
            \/ phase = "end" /\ Roots = {} /\ phase' = "done" /\ UNCHANGED <<gvars, h>>
NoLeak == phase = "done" => Alive = {}
Emit == phase = "done" => PrintT(<<"T", ToJson([ops |-> h])>>)
=============================================================================
