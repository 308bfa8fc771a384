------------------------------- MODULE DebuggerMC ------------------------------
(* All debugging sessions of up to MaxCmds commands on small programs.          *)
EXTENDS Debugger
CONSTANTS MaxCmds
Progs == <<
  <<[k |-> "fn", f |-> "f1"], [k |-> "open"], [k |-> "decl", v |-> "x", a |-> "p", b |-> "", c |-> 3], [k |-> "ret", a |-> "x"], [k |-> "end"],
    [k |-> "fn", f |-> "k"], [k |-> "open"], [k |-> "gid"], [k |-> "decl", v |-> "x", a |-> "g", b |-> "", c |-> 1], [k |-> "call", v |-> "x", f |-> "f1", a |-> "x"], [k |-> "bar"], [k |-> "st", a |-> "x", b |-> "g"], [k |-> "end"]>>,
  <<[k |-> "fn", f |-> "k"], [k |-> "open"], [k |-> "gid"], [k |-> "while", a |-> "g", b |-> "", c |-> 2], [k |-> "asg", v |-> "g", a |-> "g", b |-> "", c |-> 1], [k |-> "close"], [k |-> "oob", a |-> "g"], [k |-> "end"]>>>>
LL == <<[n |-> <<2, 1, 1>>, l |-> <<2, 1, 1>>, off |-> <<0, 0, 0>>], [n |-> <<3, 1, 1>>, l |-> <<2, 1, 1>>, off |-> <<1, 0, 0>>]>>
Comps == [i \in 1..2 |-> Compile(Progs[i])]
VARIABLES pi, li, m, d, cmds, how, phase
(* how: the command that resumed the execution, the line and the depth at which it did; what was executed last and where *)
vars == <<pi, li, m, d, cmds, how, phase>>
P == Comps[pi]
L == LL[li]
Mem0 == [i \in 1..16 |-> i]
RECURSIVE RunAll(_)
RunAll(x) == IF x.cur # 0 THEN RunAll(TLCEval(Advance(Exec(P, L, x, x.cur)))) ELSE IF Over(x) THEN x.mem ELSE RunAll(TLCEval(Schedule(L, x)))
Init == pi \in 1..2 /\ li \in 1..2 /\ m = Start(P, L, Mem0) /\ d = Fresh(1, 1) /\ cmds = 0 /\ how = [c |-> "start", line |-> 0, depth |-> 0, g |-> 0, prev |-> 0, force |-> FALSE] /\ phase = "run"
Run == /\ phase = "run" /\ UNCHANGED <<pi, li, cmds>>
       /\ IF m.cur # 0
          THEN \E x \in {TLCEval(Exec(P, L, m, m.cur))} : \E s \in {TLCEval(Stop(P, L, d, x))} :
                 /\ d' = s.d /\ how' = [how EXCEPT !.g = m.cur, !.prev = Line(P, x.wi[m.cur]), !.force = x.err]
                 /\ IF s.p THEN phase' = "prompt" /\ m' = x ELSE phase' = "run" /\ m' = TLCEval(Advance(x))
          ELSE IF ~Over(m) THEN m' = Schedule(L, m) /\ UNCHANGED <<d, how, phase>>
          ELSE phase' = "done" /\ UNCHANGED <<m, d, how>>
Cs == {<<"step">>, <<"next">>, <<"continue">>, <<"quit">>, <<"delete", 1>>, <<"delall", TRUE>>} \cup {<<"break", i>> : i \in IF pi = 1 THEN {4, 10, 12} ELSE {4, 5}} \cup {<<"workitem", q>> : q \in L.off[1]..(L.off[1] + L.n[1] - 1)}
Cmd == /\ phase = "prompt" /\ UNCHANGED <<pi, li>>
       /\ \/ /\ cmds < MaxCmds /\ cmds' = cmds + 1
             /\ \E c \in Cs : \E x \in {TLCEval(Command(P, L, d, m, c))} :
                  /\ d' = x.d /\ IF x.go THEN phase' = "run" /\ m' = TLCEval(Advance(x.m)) /\ how' = [how EXCEPT !.c = c[1], !.line = d'.line, !.depth = Depth(m.wi[m.cur]), !.g = m.cur]
                                ELSE phase' = "prompt" /\ m' = x.m /\ UNCHANGED how
          \/ cmds = MaxCmds /\ d' = [d EXCEPT !.run = FALSE] /\ m' = TLCEval(Advance(m)) /\ phase' = "run" /\ how' = [how EXCEPT !.c = "quit"] /\ UNCHANGED cmds
Next == Run \/ Cmd
Spec == Init /\ [][Next]_vars
(* debugging does not change what the kernel computes                           *)
Same == phase = "done" => m.mem = RunAll(Start(P, L, Mem0))
(* every work-item has run exactly once when the launch is over                 *)
Once == phase = "done" => \A g \in 1..Items(L) : m.wi[g].st = "fin"
(* why it stopped: an error, a breakpoint at this line, or, when stepping, a new line, a barrier or the end of the work-item, with next never deeper *)
Reason == phase = "prompt" /\ how.c \in {"step", "next", "continue"} /\ cmds < MaxCmds =>
            LET w == m.wi[how.g] IN
            how.force \/ AtBrk(d, how.prev) # {} \/ d.last # 0 \/ (how.c # "continue" /\ (w.st # "run" \/ (how.prev # how.line /\ how.prev # 0 /\ (how.c = "next" => Depth(w) <= how.depth))))
               \/ (phase = "prompt" /\ m.exec # m.cur)
(* an arrival at a line with a breakpoint stops                                 *)
Arrive == [][phase = "run" /\ m.cur # 0 /\ d.run /\ how'.prev # 0 /\ AtBrk(d, how'.prev) # {} /\ how.prev # how'.prev => phase' = "prompt" \/ how.c = "start"]_vars
Quiet == [][phase = "run" /\ ~d.run => phase' # "prompt"]_vars
================================================================================
