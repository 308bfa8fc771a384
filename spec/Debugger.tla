------------------------------- MODULE Debugger --------------------------------
(* The interactive debugger. A program is a sequence of source lines; Compile   *)
(* turns it into instructions, each of which belongs to a line. The machine     *)
(* runs the work-items of a launch one after the other (one worker): a          *)
(* work-item runs until it finishes or is at a barrier, then the next one of    *)
(* the group does. After every instruction the debugger decides whether to      *)
(* stop; at a stop it takes commands until one of them resumes the execution.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
(* ---------------------------------------------------------------- programs -- *)
(* A line is a record with field k:                                             *)
(*   "fn" f | "open" | "close" | "end" (of a function) | "blank" | "gid"        *)
(*   "decl" v a b c, "asg" v a b c:    v = a + b, or a + c when b is ""         *)
(*   "while" a b c: a < b or a < c | "if" a b c v w: if (a < ..) v = v + w      *)
(*   "call" v f a: v = f(a) | "ret" a | "bar" | "st" a b: array[g] = a + b      *)
(*   "ld" v: v = array[g] | "oob" a: array[g + 90000] = a, an invalid write     *)
(*   "cv" v a w: w v = a, of another type w | "ts" a b: struct S t; t.a = a;    *)
(*   t.b = (short)b | "th" a: private int *h = &a | "tl" a b: l[0] = a; l[1] = b *)
(*   where l is an array in local memory, "ldecl" declares it, "sdef" struct S  *)
N(l) == [o |-> "n", l |-> l, d |-> {}]
Ns(k, l) == [i \in 1..k |-> N(l)]
Loads(s) == IF s.b = "" THEN 1 ELSE 2
Emit1(s, cs) ==            \* instructions cs of one line; the first declares what is pending
  [s EXCEPT !.code = @ \o (IF s.pend = {} THEN cs ELSE <<[cs[1] EXCEPT !.d = @ \cup s.pend]>> \o Tail(cs)), !.pend = {}]
Val(x, l) == Ns(Loads(x) + 1, l) \o <<[o |-> "s", l |-> l, d |-> {}, v |-> x.v, a |-> x.a, b |-> x.b, c |-> x.c]>>
Comp(s, x, l) ==
  LET n == Len(s.code) IN
  CASE x.k = "fn"    -> [s EXCEPT !.f = x.f]
    [] x.k = "open"  -> [s EXCEPT !.ent = @ @@ (s.f :> n + 1), !.code = Append(@, [N(0) EXCEPT !.o = "n"]), !.pend = IF s.f = "k" THEN {"a"} ELSE {"p"}]
    [] x.k = "gid"   -> Emit1([s EXCEPT !.pend = @ \cup {"g"}], Ns(5, l) \o <<[o |-> "gid", l |-> l, d |-> {}]>>)
    [] x.k = "decl"  -> Emit1([s EXCEPT !.pend = @ \cup {x.v}], Val(x, l))
    [] x.k = "asg"   -> Emit1(s, Val(x, l))
    [] x.k = "while" -> [Emit1(s, Ns(1 + Loads(x) + 1, l) \o <<[o |-> "jz", l |-> l, d |-> {}, a |-> x.a, b |-> x.b, c |-> x.c, t |-> 0]>>)
                          EXCEPT !.loop = Append(@, [l |-> l, back |-> n + 2, jz |-> n + Loads(x) + 3])]
    [] x.k = "close" -> LET lp == Last(s.loop) r == Emit1(s, <<[o |-> "j", l |-> lp.l, d |-> {}, t |-> lp.back]>>)
                        IN [r EXCEPT !.code[lp.jz].t = Len(r.code) + 1, !.loop = Front(@)]
    [] x.k = "if"    -> LET m == n + Loads(x) + 2 + 5 + 1 IN
                        Emit1(s, Ns(Loads(x) + 1, l) \o <<[o |-> "jz", l |-> l, d |-> {}, a |-> x.a, b |-> x.b, c |-> x.c, t |-> m]>> \o Ns(3, l)
                                 \o <<[o |-> "s", l |-> l, d |-> {}, v |-> x.v, a |-> x.v, b |-> x.w, c |-> 0], [o |-> "j", l |-> l, d |-> {}, t |-> m]>>)
    [] x.k = "call"  -> Emit1(s, <<N(l), [o |-> "call", l |-> l, d |-> {}, f |-> x.f, a |-> x.a], [o |-> "srv", l |-> l, d |-> {}, v |-> x.v]>>)
    [] x.k = "ret"   -> Emit1(s, <<N(l), [o |-> "ret", l |-> l, d |-> {}, a |-> x.a]>>)
    [] x.k = "bar"   -> Emit1(s, <<[o |-> "bar", l |-> l, d |-> {}]>>)
    [] x.k = "st"    -> Emit1(s, Ns(7, l) \o <<[o |-> "st", l |-> l, d |-> {}, a |-> x.a, b |-> x.b]>>)
    [] x.k = "ld"    -> Emit1(s, Ns(5, l) \o <<[o |-> "ld", l |-> l, d |-> {}, v |-> x.v]>>)
    [] x.k = "cv"    -> Emit1([s EXCEPT !.pend = @ \cup {x.v}], Ns(2, l) \o <<[o |-> "cv", l |-> l, d |-> {}, v |-> x.v, a |-> x.a, w |-> x.w]>>)
    [] x.k = "ts"    -> Emit1([s EXCEPT !.pend = @ \cup {"t"}], Ns(2, l) \o <<[o |-> "cv", l |-> l, d |-> {}, v |-> "t.a", a |-> x.a, w |-> "int"]>> \o Ns(3, l) \o <<[o |-> "cv", l |-> l, d |-> {}, v |-> "t.b", a |-> x.b, w |-> "short"]>>)
    [] x.k = "th"    -> Emit1([s EXCEPT !.pend = @ \cup {"h"}], <<[o |-> "th", l |-> l, d |-> {}, a |-> x.a]>>)
    [] x.k = "tl"    -> Emit1(s, <<N(l), [o |-> "tl", l |-> l, d |-> {}, i |-> 1, a |-> x.a], N(l), [o |-> "tl", l |-> l, d |-> {}, i |-> 2, a |-> x.b]>>)
    [] x.k = "oob"   -> Emit1(s, Ns(6, l) \o <<[o |-> "err", l |-> l, d |-> {}]>>)
    [] x.k = "end"   -> IF s.f = "k" THEN Emit1(s, <<[o |-> "end", l |-> l, d |-> {}]>>) ELSE s
    [] OTHER         -> s
Compile(lines) ==
  LET s == FoldLeft(LAMBDA s, l : TLCEval(Comp(s, lines[l], l)), [code |-> <<>>, loop |-> <<>>, f |-> "", ent |-> <<>>, pend |-> {}], [l \in 1..Len(lines) |-> l])
  IN [code |-> s.code, ent |-> s.ent, n |-> Len(lines), loc |-> \E i \in 1..Len(lines) : lines[i].k = "ldecl",
      fn |-> [pc \in 1..Len(s.code) |-> CHOOSE f \in DOMAIN s.ent : s.ent[f] <= pc /\ \A h \in DOMAIN s.ent : s.ent[h] <= pc => s.ent[h] <= s.ent[f]]]
(* ----------------------------------------------------------------- machine -- *)
(* a launch L: sizes n, group sizes l, offset off; work-items and groups are    *)
(* numbered from 1 in the order of their IDs                                    *)
Ceil(a, b) == (a + b - 1) \div b
NumG(L, i) == Ceil(L.n[i], L.l[i])
Items(L) == L.n[1] * L.n[2] * L.n[3]
Groups(L) == NumG(L, 1) * NumG(L, 2) * NumG(L, 3)
Pos(L, g) == <<(g - 1) % L.n[1], ((g - 1) \div L.n[1]) % L.n[2], (g - 1) \div (L.n[1] * L.n[2])>>
Gid(L, g) == LET p == Pos(L, g) IN <<p[1] + L.off[1], p[2] + L.off[2], p[3] + L.off[3]>>
ItemAt(L, q) == 1 + (q[1] - L.off[1]) + L.n[1] * ((q[2] - L.off[2]) + L.n[2] * (q[3] - L.off[3]))
GroupOf(L, g) == LET p == Pos(L, g) IN 1 + (p[1] \div L.l[1]) + NumG(L, 1) * ((p[2] \div L.l[2]) + NumG(L, 2) * (p[3] \div L.l[3]))
Cell(L, g) == LET q == Gid(L, g) IN 1 + q[1] + 8 * q[2]
Start(P, L, mem) ==
  [wi |-> [g \in 1..Items(L) |-> [pc |-> P.ent["k"], tgt |-> 0, ret |-> <<>>, fr |-> <<[v |-> <<>>, seen |-> {}]>>, st |-> "run", av |-> <<>>, rv |-> 0, ptr |-> ""]],
   cur |-> 0, exec |-> 0, grp |-> 0, susp |-> <<>>, pend |-> [i \in 1..Groups(L) |-> i], mem |-> mem, err |-> FALSE,
   loc |-> [i \in 1..Groups(L) |-> <<>>]]
Top(w) == w.fr[Len(w.fr)]
Var(w, v) == Top(w).v[v]
Ev(w, a, b, c) == Var(w, a) + (IF b = "" THEN c ELSE Var(w, b))
Less(w, i) == Var(w, i.a) < (IF i.b = "" THEN i.c ELSE Var(w, i.b))
SetV(w, v, x) == [w EXCEPT !.fr[Len(w.fr)].v = (v :> x) @@ @]
(* one instruction of work-item g (m.err: it was an invalid access)             *)
Exec(P, L, m, g) ==
  LET w0 == m.wi[g] i == P.code[w0.pc] w == [w0 EXCEPT !.fr[Len(w0.fr)].seen = @ \cup i.d]
      up(x) == [m EXCEPT !.wi[g] = x, !.exec = g, !.err = FALSE] IN
  CASE i.o = "s"   -> up(SetV(w, i.v, Ev(w, i.a, i.b, i.c)))
    [] i.o = "gid" -> up(SetV(w, "g", Cell(L, g) - 1))
    [] i.o = "srv" -> up(SetV(w, i.v, w.rv))
    [] i.o = "cv"  -> up(SetV(w, i.v, IF i.w = "char" THEN ((Var(w, i.a) + 128) % 256) - 128 ELSE IF i.w = "short" THEN ((Var(w, i.a) + 32768) % 65536) - 32768 ELSE Var(w, i.a)))
    [] i.o = "th"  -> up([w EXCEPT !.ptr = i.a])
    [] i.o = "tl"  -> [up(w) EXCEPT !.loc[m.grp] = (i.i :> Var(w, i.a)) @@ @]
    [] i.o = "ld"  -> up(SetV(w, i.v, m.mem[Cell(L, g)]))
    [] i.o = "st"  -> [up(w) EXCEPT !.mem[Cell(L, g)] = Var(w, i.a) + Var(w, i.b)]
    [] i.o = "err" -> [up(w) EXCEPT !.err = TRUE]
    [] i.o = "j"   -> up([w EXCEPT !.tgt = i.t])
    [] i.o = "jz"  -> up(IF Less(w, i) THEN w ELSE [w EXCEPT !.tgt = i.t])
    [] i.o = "call" -> LET x == Var(w, i.a) IN up([w EXCEPT !.tgt = P.ent[i.f], !.ret = Append(@, w.pc), !.av = (i.f :> x) @@ @, !.fr = Append(@, [v |-> "p" :> x, seen |-> {}])])
    [] i.o = "ret" -> up([w EXCEPT !.pc = Last(w.ret), !.ret = Front(@), !.fr = Front(@), !.rv = Var(w, i.a)])
    [] i.o = "bar" -> up([w EXCEPT !.st = "bar"])
    [] i.o = "end" -> up([w EXCEPT !.st = "fin"])
    [] OTHER       -> up(w)
(* the executed instruction is left *)
Advance(m) == LET w == m.wi[m.exec] IN
  [m EXCEPT !.wi[m.exec] = [w EXCEPT !.pc = IF w.tgt # 0 THEN w.tgt ELSE IF w.st = "fin" THEN @ ELSE @ + 1, !.tgt = 0], !.exec = 0,
            !.cur = IF m.wi[m.cur].st = "run" THEN m.cur ELSE 0]
In(L, m, st) == {g \in 1..Items(L) : GroupOf(L, g) = m.grp /\ m.wi[g].st = st}
Over(m) == m.grp = 0 /\ m.susp = <<>> /\ m.pend = <<>>
(* what runs next when no work-item is running *)
Schedule(L, m) ==
  IF m.grp = 0 THEN IF m.susp # <<>> THEN [m EXCEPT !.grp = Head(m.susp), !.susp = Tail(@)] ELSE [m EXCEPT !.grp = Head(m.pend), !.pend = Tail(@)]
  ELSE IF In(L, m, "run") # {} THEN [m EXCEPT !.cur = Min(In(L, m, "run"))]
  ELSE IF In(L, m, "bar") # {} THEN [m EXCEPT !.wi = [g \in DOMAIN m.wi |-> IF g \in In(L, m, "bar") THEN [m.wi[g] EXCEPT !.st = "run"] ELSE m.wi[g]]]
  ELSE [m EXCEPT !.grp = 0]
(* ---------------------------------------------------------------- debugger -- *)
(* Breakpoints belong to programs: brk has those of the program being run, oth *)
(* those of each program while another one runs.                              *)
Fresh(np, p) == [run |-> TRUE, oth |-> [i \in 1..np |-> <<>>], brk |-> <<>>, num |-> 1, last |-> 0, cont |-> FALSE, nxt |-> FALSE, force |-> FALSE, depth |-> 0, line |-> 0, list |-> 0]
Begin(d, p, q) ==      \* a launch of program q after one of p
  LET oth == [d.oth EXCEPT ![p] = d.brk] IN [d EXCEPT !.oth = [oth EXCEPT ![q] = <<>>], !.brk = oth[q], !.last = 0, !.cont = FALSE, !.nxt = FALSE, !.depth = 0, !.line = 0, !.list = 0]
Line(P, w) == IF w.st = "fin" THEN 0 ELSE P.code[w.pc].l
Depth(w) == Len(w.ret)
Here(P, w) == IF w.st = "fin" THEN <<>> ELSE IF Line(P, w) = 0 THEN <<<<"noline">>>> ELSE <<<<"src", Line(P, w)>>>>
Func(P, w, pc, pre) == <<"fn", pre, P.fn[pc], IF P.fn[pc] = "k" THEN 0 ELSE w.av[P.fn[pc]], P.code[pc].l>>
AtBrk(d, line) == {i \in 1..Len(d.brk) : d.brk[i].l = line}
(* whether to stop after the instruction just executed: [p: stop, d, out] *)
Stop(P, L, d0, m) ==
  LET w == m.wi[m.cur] line == Line(P, w) d == IF m.err THEN [d0 EXCEPT !.force = TRUE] ELSE d0
      same == d.last # 0 /\ line = d.last                      \* still on the line of the last breakpoint hit
      d2 == IF d.last # 0 /\ ~same THEN [d EXCEPT !.last = 0] ELSE d
      hit == ~same /\ line # 0 /\ AtBrk(d, line) # {}
      at == [d EXCEPT !.force = FALSE, !.cont = FALSE, !.nxt = FALSE, !.list = 0]
      show(x, out) == [p |-> TRUE, d |-> x, out |-> out \o (IF w.st # "fin" /\ d.depth # Depth(w) THEN <<Func(P, w, w.pc, "In function ")>> ELSE <<>>) \o Here(P, w)]
      no(x) == [p |-> FALSE, d |-> x, out |-> <<>>] IN
  IF ~d.run THEN no(d)
  ELSE IF d.force THEN show(at, <<>>)
  ELSE IF hit THEN show([at EXCEPT !.last = line], <<<<"bp", d.brk[Min(AtBrk(d, line))].n, line, Gid(L, m.cur)>>>>)
  ELSE IF d.cont THEN no(d2)
  ELSE IF w.st # "run" THEN show([at EXCEPT !.last = d2.last], <<>>)
  ELSE IF d.nxt /\ Depth(w) > d.depth THEN no(d2)
  ELSE IF line = 0 \/ line = d.line THEN no(d2)
  ELSE show([at EXCEPT !.last = d2.last], <<>>)
(* ---------------------------------------------------------------- commands -- *)
(* A command is a tuple; the result says what is printed and whether the        *)
(* execution goes on.                                                           *)
R(d, m, out) == [d |-> d, m |-> m, out |-> out, go |-> FALSE]
Txt(s) == <<<<"txt", s>>>>
ShowVar(P, L, m, w, e) ==    \* e = <<name>>, <<name, ".member">> or <<name, index>>
  LET f == Top(w) n == e[1] no(t) == <<"val", e, t>> loc == m.loc[m.grp]
      num(v) == IF v \in DOMAIN f.v THEN <<"int", e, f.v[v]>> ELSE <<"any", e>> IN
  IF n = "l" /\ P.loc /\ P.fn[w.pc] = "k" /\ w.st # "fin" THEN IF Len(e) = 2 THEN <<"any", e>> ELSE IF DOMAIN loc = {1, 2} THEN <<"arr", e, <<loc[1], loc[2]>>>> ELSE <<"any", e>>
  ELSE IF n \notin f.seen THEN IF n = "l" /\ w.st = "fin" THEN <<"any", e>> ELSE no("not found")
  ELSE IF Len(e) = 2 /\ e[2] \in {".a", ".b", ".z"} THEN IF n # "t" THEN no("not a composite type") ELSE IF e[2] = ".z" THEN no("no member named 'z' found") ELSE num(n \o e[2])
  ELSE IF Len(e) = 2 THEN IF n = "h" THEN IF w.ptr # "" /\ e[2] = "[0]" THEN num(w.ptr) ELSE IF w.ptr # "" THEN no("invalid memory address") ELSE <<"any", e>>
                          ELSE IF n # "a" THEN no("not a pointer type")
                          ELSE LET k == CHOOSE k \in 0..40 : e[2] = "[" \o ToString(k) \o "]" IN IF k + 1 \in DOMAIN m.mem THEN <<"int", e, m.mem[k + 1]>> ELSE no("invalid memory address")
  ELSE IF n = "a" THEN <<"ptr", e>> ELSE IF n \in {"h", "t"} THEN <<"any", e>> ELSE num(n)
ListFrom(P, s) == IF s > P.n THEN <<>> ELSE [i \in 1..(IF s + 9 <= P.n THEN 10 ELSE P.n - s + 1) |-> <<"src", s + i - 1>>]
Switch(P, L, d, m, g) ==
  LET h == GroupOf(L, g)
      m2 == IF h = m.grp THEN m
            ELSE IF h \in Range(m.susp) THEN [m EXCEPT !.grp = h, !.susp = Append(SelectSeq(@, LAMBDA x : x # h), m.grp)]
            ELSE [m EXCEPT !.grp = h, !.pend = SelectSeq(@, LAMBDA x : x # h), !.susp = Append(@, m.grp)] IN
  IF h # m.grp /\ h \notin Range(m.susp) \cup Range(m.pend) THEN R(d, m, Txt("Work-item has already finished, unable to load state."))
  ELSE R(d, [m2 EXCEPT !.cur = g], <<<<"wi", Gid(L, g)>>>> \o (IF m.wi[g].st = "fin" THEN Txt("Work-item has finished execution.") ELSE Here(P, m.wi[g])))
Command(P, L, d, m, c) ==
  LET w == m.wi[m.cur] line == Line(P, w) k == c[1] IN
  CASE k \in {"step", "next"} ->
         IF w.st = "fin" THEN R(d, m, Txt("Work-item has finished.")) ELSE IF w.st = "bar" THEN R(d, m, Txt("Work-item is at barrier."))
         ELSE [d |-> [d EXCEPT !.depth = Depth(w), !.line = line, !.nxt = k = "next"], m |-> m, out |-> <<>>, go |-> TRUE]
    [] k = "continue" -> [d |-> [d EXCEPT !.cont = TRUE], m |-> m, out |-> <<>>, go |-> TRUE]
    [] k = "quit" -> [d |-> [d EXCEPT !.run = FALSE], m |-> m, out |-> <<>>, go |-> TRUE]
    [] k = "break" -> LET at == IF Len(c) = 1 THEN line ELSE c[2] IN
         IF Len(c) = 2 /\ (at = 0 \/ at > P.n + 1) THEN R(d, m, Txt("Invalid line number."))
         ELSE IF at = 0 THEN R(d, m, Txt("Not currently on a line."))
         ELSE R([d EXCEPT !.brk = Append(@, [n |-> d.num, l |-> at]), !.num = @ + 1], m, <<>>)
    [] k = "delete" -> IF \E i \in 1..Len(d.brk) : d.brk[i].n = c[2] THEN R([d EXCEPT !.brk = SelectSeq(@, LAMBDA b : b.n # c[2])], m, <<>>)
                       ELSE R(d, m, Txt("Breakpoint not found."))
    [] k = "delall" -> R(IF c[2] THEN [d EXCEPT !.brk = <<>>, !.oth = [i \in DOMAIN @ |-> <<>>]] ELSE d, m, <<<<"ask">>>>)
    [] k = "infobreak" -> R(d, m, [i \in 1..Len(d.brk) |-> <<"isbp", d.brk[i].n, d.brk[i].l>>])
    [] k = "info" -> R(d, m, <<<<"info", L.n, L.off, L.l, Gid(L, m.cur)>>>> \o (IF w.st = "fin" THEN Txt("Work-item has finished.") ELSE <<Func(P, w, w.pc, "In function ")>> \o Here(P, w)))
    [] k = "backtrace" -> R(d, m, IF w.st = "fin" THEN <<>> ELSE <<Func(P, w, w.pc, "#" \o ToString(Depth(w)) \o " ")>>
                                \o [i \in 1..Depth(w) |-> LET j == Depth(w) + 1 - i IN Func(P, w, w.ret[j], "#" \o ToString(j - 1) \o " ")])
    [] k = "print" -> R(d, m, [i \in 1..Len(c) - 1 |-> ShowVar(P, L, m, w, c[i + 1])])
    [] k = "workitem" ->
         LET q == [i \in 1..3 |-> IF i < Len(c) THEN c[i + 1] ELSE L.off[i]] IN
         IF Len(c) > 4 THEN R(d, m, Txt("Invalid number of arguments."))
         ELSE IF \E i \in 1..3 : q[i] < L.off[i] \/ q[i] >= L.off[i] + L.n[i] THEN R(d, m, Txt("Invalid global ID."))
         ELSE Switch(P, L, d, m, ItemAt(L, q))
    [] k = "list" -> LET s == IF c[2] > 5 THEN c[2] - 5 ELSE 1 IN R([d EXCEPT !.list = s], m, ListFrom(P, s))
    [] k = "listfwd" -> LET s == IF d.list # 0 THEN d.list + 10 ELSE line + 1 IN
         IF s > P.n THEN R([d EXCEPT !.list = P.n + 1], m, <<>>) ELSE R([d EXCEPT !.list = s], m, ListFrom(P, s))
    [] k = "listback" -> LET p == IF d.list # 0 THEN d.list ELSE line s == IF p > 10 THEN p - 10 ELSE 1 IN R([d EXCEPT !.list = s], m, ListFrom(P, s))
    [] k = "gmem" -> R(d, m, IF c[2] + c[3] <= Cardinality(DOMAIN m.mem) THEN <<<<"gmem", c[2], [i \in 1..c[3] |-> m.mem[c[2] + i]]>>>> ELSE Txt("Invalid memory address."))
    [] k = "lmem" -> LET loc == m.loc[m.grp] IN R(d, m, IF P.loc /\ DOMAIN loc = {1, 2} THEN <<<<"lmem", <<loc[1], loc[2]>>>>>> ELSE IF P.loc THEN <<<<"lmem", <<>>>>>> ELSE <<>>)
    [] k = "gmemall" -> R(d, m, <<<<"gmem", 0, [i \in 1..Cardinality(DOMAIN m.mem) |-> m.mem[i]]>>>>)
    [] OTHER -> R(d, m, Txt("Unrecognized command '" \o k \o "'"))
================================================================================
