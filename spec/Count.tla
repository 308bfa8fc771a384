--------------------------------- MODULE Count ---------------------------------
(* How often a kernel's work-items perform the countable operations: loads and *)
(* stores of global, local and constant memory (with their bytes), calls.      *)
(* Statements:                                                                 *)
(*   [k |-> "mem", o ("load", "store"), sp ("global", "local", "constant"), w] *)
(*   [k |-> "call", f], f: number of a function of the program                 *)
(*   [k |-> "bar"]; [k |-> "at", f]: atomic operation f                        *)
(*   [k |-> "for", n, m, b]: body b n + (id mod m) times                       *)
(*   [k |-> "if", by ("item", "group"), m, c, t, e]: id mod m = c ?            *)
(* A histogram maps names to <<count, bytes>>.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
H0 == <<>>               \* a function with empty domain
Get(h, x) == IF x \in DOMAIN h THEN h[x] ELSE <<0, 0>>
Inc(h, x, n, b) == [y \in DOMAIN h \cup {x} |-> IF y = x THEN <<Get(h, x)[1] + n, Get(h, x)[2] + b>> ELSE h[y]]
Plus(h, g) == [y \in DOMAIN h \cup DOMAIN g |-> <<Get(h, y)[1] + Get(g, y)[1], Get(h, y)[2] + Get(g, y)[2]>>]
Scale(h, n) == IF n = 0 THEN H0 ELSE [y \in DOMAIN h |-> <<h[y][1] * n, h[y][2] * n>>]
Nat_(n) == [x \in 1..n |-> x]
RECURSIVE Run(_, _, _, _)
(* what item id of group grp counts when it executes code c; fs: bodies of functions *)
Run(c, id, grp, fs) ==
  FoldLeft(LAMBDA h, s :
    CASE s.k = "mem" -> Inc(h, s.o \o " " \o s.sp, 1, s.w)
      [] s.k = "call" -> Plus(Inc(h, "call fn" \o ToString(s.f) \o "()", 1, 0), Run(fs[s.f], id, grp, fs))
      [] s.k = "bar" -> Inc(h, "call _Z7barrierj()", 1, 0)
      [] s.k = "at" -> Inc(h, "call " \o s.f \o "()", 1, 0)
      [] s.k = "for" -> Plus(h, Scale(Run(s.b, id, grp, fs), s.n + (id % s.m)))
      [] s.k = "if" -> Plus(h, Run(IF (IF s.by = "item" THEN id ELSE grp) % s.m = s.c THEN s.t ELSE s.e, id, grp, fs)), H0, c)
(* a run with n items in groups of l *)
Total(c, n, l, fs) == FoldLeft(LAMBDA h, i : Plus(h, Run(c, i - 1, (i - 1) \div l, fs)), H0, Nat_(n))
================================================================================
