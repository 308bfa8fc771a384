------------------------------ MODULE DebuggerGen ------------------------------
(* Random programs, launches and debugging sessions.                            *)
EXTENDS Debugger, Rnd, Json
CONSTANTS MaxCmds, MaxItems
VARIABLES srcs, progs, launches, li, m, d, log, left, phase, step
vars == <<srcs, progs, launches, li, m, d, log, left, phase, step>>
HH(x) == ((x % 32749) * 65003 + (x \div 32749) * 31 + 12345) % 1000003
Hash(x) == TLCEval(HH(HH(HH(x))))
Kid(x, i) == Hash(x * 37 + i)
Expr(k, v, vs, x) == [k |-> k, v |-> v, a |-> NthSeq(vs, Kid(x, 1)), b |-> IF Kid(x, 2) % 3 = 0 THEN NthSeq(vs, Kid(x, 3)) ELSE "", c |-> Rng(9, Kid(x, 4))]
(* one line that does not change the variable keep; vs: variables, fs: callees *)
Simple(vs, keep, fs, kern, x) ==
  LET ws == SelectSeq(vs, LAMBDA v : v # keep) v == NthSeq(ws, Kid(x, 11)) z == Kid(x, 12) % 100 e == Expr("asg", v, vs, Kid(x, 13)) IN
  IF z < 35 \/ (z >= 60 /\ fs = <<>>) \/ (z >= 80 /\ ~kern) THEN e
  ELSE IF z < 60 THEN [k |-> "if", a |-> e.a, b |-> e.b, c |-> e.c, v |-> v, w |-> NthSeq(vs, Kid(x, 14))]
  ELSE IF z < 80 THEN [k |-> "call", v |-> v, f |-> NthSeq(fs, Kid(x, 15)), a |-> NthSeq(vs, Kid(x, 16))]
  ELSE IF z < 88 THEN [k |-> "st", a |-> NthSeq(vs, Kid(x, 17)), b |-> NthSeq(vs, Kid(x, 18))]
  ELSE IF z < 96 THEN [k |-> "ld", v |-> v] ELSE [k |-> "oob", a |-> NthSeq(vs, Kid(x, 19))]
Loop(vs, fs, kern, x) ==
  LET v == NthSeq(vs, Kid(x, 21)) IN
  <<[k |-> "while", a |-> v, b |-> "", c |-> Rng(6, Kid(x, 22))], [k |-> "asg", v |-> v, a |-> v, b |-> "", c |-> Rng(3, Kid(x, 23))]>>
    \o (IF Kid(x, 24) % 2 = 0 /\ Len(vs) > 1 THEN <<Simple(vs, v, fs, kern, Kid(x, 25))>> ELSE <<>>) \o <<[k |-> "close"]>>
Blank(x) == IF x % 4 = 0 THEN <<[k |-> "blank"]>> ELSE <<>>
FoldSeqs(n, f(_)) == FoldLeft(LAMBDA s, i : s \o f(i), <<>>, [i \in 1..n |-> i])
F1(x) == <<[k |-> "fn", f |-> "f1"], [k |-> "open"], Expr("decl", "x", <<"p">>, Kid(x, 1))>> \o FoldSeqs(Kid(x, 2) % 3, LAMBDA i : <<Simple(<<"x", "p">>, "p", <<>>, FALSE, Kid(x, 10 + i))>>)
           \o (IF Kid(x, 3) % 4 = 0 THEN Loop(<<"x">>, <<>>, FALSE, Kid(x, 4)) ELSE <<>>) \o <<[k |-> "ret", a |-> NthSeq(<<"x", "x", "p">>, Kid(x, 5))], [k |-> "end"]>>
F2(x) == <<[k |-> "fn", f |-> "f2"], [k |-> "open"], Expr("decl", "y", <<"p">>, Kid(x, 1)), [k |-> "call", v |-> "y", f |-> "f1", a |-> NthSeq(<<"y", "p">>, Kid(x, 2))],
           Simple(<<"y", "p">>, "p", <<"f1">>, FALSE, Kid(x, 3)), [k |-> "ret", a |-> "y"], [k |-> "end"]>>
KStmt(fs, x) == IF Kid(x, 1) % 100 < 15 THEN Loop(<<"x", "y", "z">>, fs, TRUE, Kid(x, 2)) ELSE IF Kid(x, 1) % 100 < 30 THEN <<[k |-> "bar"]>> ELSE <<Simple(<<"x", "y", "z">>, "", fs, TRUE, Kid(x, 3))>>
Typed(i, x) ==
  LET v == NthSeq(<<"x", "y", "z">>, Kid(x, 1)) u == NthSeq(<<"x", "y", "z">>, Kid(x, 2)) IN
  CASE i = 1 -> [k |-> "cv", v |-> "c", a |-> v, w |-> "char"] [] i = 2 -> [k |-> "cv", v |-> "w", a |-> v, w |-> NthSeq(<<"long", "float">>, Kid(x, 3))]
    [] i = 3 -> [k |-> "ts", a |-> v, b |-> u] [] i = 4 -> [k |-> "th", a |-> v] [] OTHER -> [k |-> "tl", a |-> v, b |-> u]
Program(r) ==
  LET fs == NthSeq(<<<<>>, <<"f1">>, <<"f1">>, <<"f1", "f2">>, <<"f2">>>>, r[1]) x == Hash(r[2]) IN
  (IF Kid(x, 83) % 3 = 0 THEN <<[k |-> "sdef"]>> ELSE <<>>) \o Blank(r[3]) \o (IF fs # <<>> THEN F1(Hash(r[4])) ELSE <<>>) \o Blank(r[5]) \o (IF fs # <<>> /\ Last(fs) = "f2" THEN F2(Hash(r[6])) ELSE <<>>)
  \o <<[k |-> "fn", f |-> "k"], [k |-> "open"]>> \o (IF Kid(x, 4) % 4 = 0 THEN <<[k |-> "ldecl"]>> ELSE <<>>) \o <<[k |-> "gid"], Expr("decl", "x", <<"g">>, Kid(x, 1)), Expr("decl", "y", <<"g", "x">>, Kid(x, 2)), Expr("decl", "z", <<"g", "x", "y">>, Kid(x, 3))>>
  \o FoldSeqs(5, LAMBDA i : IF Kid(x, 80 + i) % 3 # 0 \/ i = 5 THEN <<>> ELSE <<Typed(i, Kid(x, 90 + i))>>)
  \o (IF Kid(x, 4) % 4 = 0 THEN <<Typed(6, Kid(x, 95))>> ELSE <<>>)
  \o Blank(r[7]) \o FoldSeqs(1 + (r[8] % 5), LAMBDA i : KStmt(fs, Kid(x, 50 + i))) \o <<[k |-> "st", a |-> NthSeq(<<"x", "y", "z">>, r[9]), b |-> NthSeq(<<"x", "y", "z">>, r[10])], [k |-> "end"]>>
Launch(p, a, b, c, x) ==
  LET n1 == Rng(4, a) n2 == IF n1 <= 3 /\ n1 * 2 <= MaxItems THEN Rng(2, b) ELSE 1 IN
  [p |-> p, n |-> <<n1, n2, 1>>, l |-> <<Rng(n1, Kid(x, 1)), Rng(n2, Kid(x, 2)), 1>>, off |-> IF c % 3 = 0 THEN <<Kid(x, 3) % 4, Kid(x, 4) % 3, 0>> ELSE <<0, 0, 0>>]
(* what was printed for a command c, with the program each part refers to      *)
Tag(out, p) == [i \in 1..Len(out) |-> [p |-> p, t |-> out[i]]]
Entry(c, out, p) == [c |-> c, out |-> Tag(out, p)]
Out(l, out, p) == [l EXCEPT ![Len(l)].out = @ \o Tag(out, p)]
LL == launches[li]
prog == progs[LL.p]
lines == srcs[LL.p]
Pick(r) ==
  LET w == m.wi[m.cur] z == r[1] % 100 
      z2 == IF Len(srcs) = 2 /\ r[30] % 3 # 0 THEN NthSeq(<<50, 50, 50, 50, 50, 60, 60, 60, 66, 67, 68, 69, 95>>, r[31])      \* to get through several launches
            ELSE IF w.st = "run" THEN z ELSE 45 + (z * 55) \div 100
      at == Rng(Len(lines), r[2])
      code == {prog.code[i].l : i \in DOMAIN prog.code} \ {0} names == <<"x", "y", "z", "p", "g", "a", "q", "c", "w", "t", "t", "h", "l">>
      nm(i) == LET v == NthSeq(names, r[i]) IN IF v = "a" /\ r[i + 1] % 3 # 0 THEN <<"a", "[" \o ToString((r[i + 1] \div 3) % 34) \o "]">> ELSE IF v = "h" THEN <<v, NthSeq(<<"[0]", "[0]", "[0]", "[9]">>, r[i + 1])>>
               ELSE IF v = "t" /\ r[i + 1] % 3 # 0 THEN <<v, NthSeq(<<".a", ".b", ".b", ".z">>, r[i + 1])>> ELSE IF r[i + 1] % 20 = 0 THEN <<v, NthSeq(<<"[1]", ".a">>, r[i + 1])>> ELSE <<v>> IN
  CASE z2 < 27 -> <<"step">>
    [] z2 < 43 -> <<"next">>
    [] z2 < 57 -> <<"continue">>
    [] z2 < 66 -> IF r[2] % 5 = 0 THEN <<"break">> ELSE IF r[2] % 11 = 0 THEN <<"break", NthSeq(<<0, 99>>, r[3])>> ELSE <<"break", Nth(code, r[3])>>
    [] z2 < 69 -> IF r[2] % 5 = 0 \/ (Len(srcs) = 2 /\ r[29] % 2 = 0) THEN <<"delall", r[3] % 3 # 0>> ELSE IF Len(d.brk) > 0 /\ r[2] % 5 # 1 THEN <<"delete", d.brk[Rng(Len(d.brk), r[3])].n>> ELSE <<"delete", Rng(5, r[4])>>
    [] z2 < 71 -> <<"infobreak">>
    [] z2 < 73 -> <<"info">>
    [] z2 < 75 -> <<"backtrace">>
    [] z2 < 83 -> <<"print">> \o (IF r[2] % 3 = 0 THEN <<<<"x">>, <<"y">>, <<"z">>, <<"p">>>> ELSE IF r[2] % 3 = 1 THEN <<<<"c">>, <<"w">>, <<"t", ".a">>, <<"t", ".b">>, <<"h", "[0]">>, <<"l">>>> ELSE [i \in 1..Rng(3, r[3]) |-> nm(2 + 2 * i)])
    [] z2 < 94 -> LET L == LL q == Gid(L, Rng(Items(L), r[2])) IN
                  IF r[3] % 8 = 0 THEN <<"workitem", r[4] % 9, r[5] % 4>> ELSE IF r[3] % 40 = 1 THEN <<"workitem", 0, 0, 0, 0>> ELSE IF r[3] % 8 = 2 /\ q[3] = L.off[3] /\ q[2] = L.off[2] THEN (IF q[1] = L.off[1] THEN <<"workitem">> ELSE <<"workitem", q[1]>>)
                  ELSE IF r[3] % 2 = 0 THEN <<"workitem", q[1], q[2]>> ELSE <<"workitem", q[1], q[2], q[3]>>
    [] z2 < 97 -> NthSeq(<<<<"list", r[2] % (prog.n + 4)>>, <<"listfwd">>, <<"listfwd">>, <<"listback">>>>, r[3])
    [] z2 < 99 -> IF r[4] % 9 = 0 THEN <<"gmemall">> ELSE IF r[4] % 4 = 0 THEN <<"lmem">> ELSE <<"gmem", r[2] % 33, Rng(4, r[3])>>
    [] OTHER   -> IF r[2] % 4 = 0 THEN <<"quit">> ELSE IF r[2] % 4 = 1 THEN <<"frob">> ELSE <<"infobreak">>
Mem0(x) == [i \in 1..32 |-> Kid(x, i) % 50]
Init == /\ srcs = <<>> /\ progs = <<>> /\ launches = <<>> /\ li = 0 /\ m = [grp |-> 0] /\ d = Fresh(1, 1) /\ log = <<>> /\ left = 0 /\ phase = "new" /\ step = 0
(* the launches are of two programs in one case out of three                   *)
NewA(r) == /\ phase = "new"
           /\ srcs' = TLCEval(IF r[22] % 3 = 0 THEN <<Program(r), Program([i \in 1..10 |-> r[22 + i]])>> ELSE <<Program(r)>>) /\ progs' = TLCEval([i \in 1..Len(srcs') |-> Compile(srcs'[i])])
           /\ launches' = [i \in 1..(IF Len(srcs') = 2 THEN 2 + (r[11] % 3) ELSE IF r[11] % 3 = 0 THEN 2 ELSE 1) |-> Launch(IF Len(srcs') = 2 THEN IF r[16] % 3 = 0 THEN Rng(2, r[11 + i]) ELSE 1 + (i % 2) ELSE 1, Kid(r[12], i), Kid(r[13], i), Kid(r[14], i), Hash(r[17 + i]))]
           /\ li' = 1 /\ m' = TLCEval(Start(progs'[launches'[1].p], launches'[1], TLCEval(Mem0(Hash(r[20]))))) /\ d' = Fresh(Len(srcs'), launches'[1].p) /\ log' = <<Entry(<<"">>, <<>>, launches'[1].p) @@ [mem |-> m'.mem]>> /\ left' = Rng(MaxCmds, r[21]) /\ phase' = "run"
RunA == /\ phase = "run" /\ UNCHANGED <<srcs, progs, launches, left>>
        /\ IF m.cur # 0
           THEN \E x \in {TLCEval(Exec(prog, LL, m, m.cur))} : \E s \in {TLCEval(Stop(prog, LL, d, x))} :
                  /\ d' = s.d /\ log' = (IF s.out = <<>> THEN log ELSE Out(log, s.out, LL.p)) /\ UNCHANGED li
                  /\ IF s.p THEN phase' = "prompt" /\ m' = x ELSE phase' = "run" /\ m' = TLCEval(Advance(x))
           ELSE IF ~Over(m) THEN m' = TLCEval(Schedule(LL, m)) /\ UNCHANGED <<li, d, log, phase>>
           ELSE IF li < Len(launches) THEN li' = li + 1 /\ m' = TLCEval(Start(progs[launches[li + 1].p], launches[li + 1], m.mem)) /\ d' = Begin(d, LL.p, launches[li + 1].p) /\ UNCHANGED <<log, phase>>
           ELSE phase' = "done" /\ UNCHANGED <<li, m, d, log>>
CmdA(r) == /\ phase = "prompt" /\ UNCHANGED <<srcs, progs, launches, li>>
           /\ IF left = 0 THEN d' = [d EXCEPT !.run = FALSE] /\ m' = TLCEval(Advance(m)) /\ phase' = "run" /\ UNCHANGED <<log, left>>
              ELSE \E c \in {TLCEval(Pick(r))} : \E x \in {TLCEval(Command(prog, LL, d, m, c))} :
                     /\ d' = x.d /\ left' = left - 1 /\ log' = Append(log, Entry(c, x.out, LL.p))
                     /\ IF x.go THEN phase' = "run" /\ m' = TLCEval(Advance(x.m)) ELSE phase' = "prompt" /\ m' = x.m
Next == step' = step + 1 /\ \E r \in {IF phase = "run" THEN <<>> ELSE Draw(step)} : NewA(r) \/ RunA \/ CmdA(r)
Emit == phase = "done" => PrintT(<<"T", ToJson([srcs |-> srcs, launches |-> launches, log |-> log, mem |-> m.mem])>>)
================================================================================
