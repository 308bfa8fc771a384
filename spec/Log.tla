---------------------------------- MODULE Log ----------------------------------
(* Delivery of diagnostics: the work-items of successive launches raise        *)
(* messages, each item in its program order; the log receives every message as *)
(* it is raised until Max have been printed, then one notice, then nothing.    *)
(* A program is a sequence of statements, each performed n + id mod m times:   *)
(*  [k |-> "acc", o ("read", "write"), sp ("global", "local"), w, n, m]         *)
(*     an access w bytes wide beyond the end of its allocation                 *)
(*  [k |-> "ro", n, m], [k |-> "wo", n, m]: access against the buffer's flags  *)
(*  [k |-> "un", n, m]: an uninitialised value is stored in global memory      *)
(*     (a warning if that is looked for)                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES cur, pos, raised, out
lvars == <<cur, pos, raised, out>>
(* the linear number of an item at global position g (less the offset) in a range n *)
Lin(g, n) == g[1] + n[1] * (g[2] + n[2] * g[3])
Point(i, n) == <<i % n[1], (i \div n[1]) % n[2], i \div (n[1] * n[2])>>
Items(L) == 0..(L.n[1] * L.n[2] * L.n[3] - 1)
Off(s, i, j) == 65536 * s + 64 * i + 8 * j
(* what the j-th repetition (from 0) of statement s of the program reports for item i: *)
(* <<what, size, space, offset, statement>>, and who reports it                        *)
Msg(P, s, i, j) == LET x == P[s] IN
  CASE x.k = "acc" -> <<x.o, x.w, x.sp, Off(s, i, j), s>>
    [] x.k = "ro" -> <<"ro", 0, "", 0, s>>
    [] x.k = "wo" -> <<"wo", 0, "", 0, s>>
    [] x.k = "un" -> <<"un", 0, "global", 64 * i + 8 * j, s>>
Reps(x, i, un) == IF x.k = "un" /\ ~un THEN 0 ELSE x.n + (i % x.m)
RECURSIVE MsgsFrom(_, _, _, _)
MsgsFrom(P, s, i, un) == IF s > Len(P) THEN <<>> ELSE [j \in 1..Reps(P[s], i, un) |-> Msg(P, s, i, j - 1)] \o MsgsFrom(P, s + 1, i, un)
Msgs(P, i, un) == MsgsFrom(P, 1, i, un)
Who(L, i) == LET p == Point(i, L.n) IN <<[d \in 1..3 |-> p[d] + L.off[d]], [d \in 1..3 |-> p[d] % L.l[d]], [d \in 1..3 |-> p[d] \div L.l[d]]>>
Count(P, L, un) == LET per == [x \in 1..Len(P) |-> [i \in Items(L) |-> Reps(P[x], i, un)]] IN
                   FoldLeft(LAMBDA a, x : a + FoldLeft(LAMBDA b, i : b + per[x][i - 1], 0, [i \in 1..Cardinality(Items(L)) |-> i]), 0, [x \in 1..Len(P) |-> x])
--------------------------------------------------------------------------------
(* Runs: a sequence of [p (name of the program), L] , Progs: name -> program    *)
LInit == cur = 1 /\ pos = <<>> /\ raised = 0 /\ out = <<>>
At(i) == IF i \in DOMAIN pos THEN pos[i] ELSE 0
(* item i of the current launch, with messages M, raises its next one *)
Raise(i, M, L, kernel, max) ==
  /\ At(i) < Len(M)
  /\ raised' = raised + 1
  /\ pos' = [x \in DOMAIN pos \cup {i} |-> IF x = i THEN At(i) + 1 ELSE pos[x]]
  /\ out' = CASE raised < max -> <<"msg", kernel, Who(L, i), M[At(i) + 1]>>
              [] raised = max -> <<"notice", max>>
              [] OTHER -> <<>>
  /\ UNCHANGED cur
NextLaunch == cur' = cur + 1 /\ pos' = <<>> /\ out' = <<>> /\ UNCHANGED raised
================================================================================
