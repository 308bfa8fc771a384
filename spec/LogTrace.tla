-------------------------------- MODULE LogTrace -------------------------------
(* Acceptor: is a recorded log one that Log allows? Each line of TRACES:       *)
(* [progs, max, un, runs, ev]; ev: <<"msg", kernel, who, message>> or           *)
(* <<"notice", n>>.                                                            *)
EXTENDS Log, Json, IOUtils
VARIABLES tr, at
tvars == <<tr, at>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Run == T.runs[cur]
TInit == tr \in 1..Len(Traces) /\ at = 1 /\ LInit
NRuns == Len(T.runs)
Left(L, P) == \E i \in Items(L) : At(i) < Len(Msgs(P, i, T.un))
Find(e, L) == LET g == [d \in 1..3 |-> e[3][1][d] - L.off[d]] IN Lin(g, L.n)
(* the launch is over when nothing is left to raise *)
Over == cur <= NRuns /\ FoldLeft(LAMBDA a, i : a + At(i - 1), 0, [i \in 1..Cardinality(Items(Run.L)) |-> i]) = Count(T.progs[Run.p], Run.L, T.un)
TNext ==
  /\ UNCHANGED tr
  /\ IF Over THEN NextLaunch /\ UNCHANGED at
     ELSE /\ cur <= NRuns /\ at <= Len(T.ev)
          /\ at' = at + 1
          /\ \E e \in {T.ev[at]} :
               IF e[1] = "notice" THEN \E i \in {CHOOSE x \in Items(Run.L) : At(x) < Len(Msgs(T.progs[Run.p], x, T.un))} : Raise(i, Msgs(T.progs[Run.p], i, T.un), Run.L, Run.p, T.max) /\ out' = e
               ELSE e[1] = "msg" /\ \E i \in {Find(e, Run.L)} : i \in Items(Run.L) /\ Raise(i, Msgs(T.progs[Run.p], i, T.un), Run.L, Run.p, T.max) /\ out' = e
Done == at = Len(T.ev) + 1 /\ (cur > NRuns \/ raised > T.max)
Report == /\ Done => PrintT(<<"ACC", tr>>)
          /\ "PROGRESS" \in DOMAIN IOEnv => PrintT(<<"POS", tr, at>>)
================================================================================
