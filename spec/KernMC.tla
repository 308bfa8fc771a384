-------------------------------- MODULE KernMC --------------------------------
(* The machine of Kern on some generated kernels: values keep the shape of their *)
(* types, every kernel ends, and rewriting a kernel in ways that do not change    *)
(* its meaning does not change what the machine computes.                         *)
EXTENDS KernGen
CONSTANT Progs
MInit == prog \in {MakeProg(Hash(k)) : k \in 1..Progs} /\ m = 0 /\ outs = <<>> /\ phase = "item" /\ step = 0
Shape(v, t) == Len(v) = t.w /\ \A c \in 1..t.w : Len(v[c]) = N(t.t) /\ \A b \in 1..N(t.t) : v[c][b] \in 0..255
WellTyped ==
  phase = "run" =>
    /\ \A j \in 1..9 : Shape(m.fr[1].v[j], prog.vars[j])
    /\ \A r \in 1..5 : \A j \in 1..8 : Shape(m.mem[r][j], prog.arrs[r])
    /\ \A j \in 1..Len(m.fr[1].s) : \A f \in 1..Len(prog.sf) : Shape(m.fr[1].s[j][f], prog.sf[f])
    /\ \A d \in 1..Len(m.fr) : \A q \in 1..Len(m.fr[d].p) : m.fr[d].p[q].o \in 0..7
    /\ m.mem[5] = prog.const
Ends == step < 2000
(* rewritings *)
NotE(c) == [k |-> "u", o |-> "!", t |-> "int", w |-> 1, x |-> c]
Flip(o) == CASE o = "<" -> ">" [] o = ">" -> "<" [] o = "<=" -> ">=" [] o = ">=" -> "<=" [] OTHER -> o
RECURSIVE SwapE(_)
SwapE(e) ==
  CASE e.k = "b" -> IF e.o \in {"+", "*", "&", "|", "^", "&&", "||"} \cup CmpOps /\ (e.x.w = e.y.w) THEN [e EXCEPT !.o = Flip(e.o), !.x = SwapE(e.y), !.y = SwapE(e.x)] ELSE [e EXCEPT !.x = SwapE(e.x), !.y = SwapE(e.y)]
    [] e.k = "q" -> IF e.w = 1 THEN [e EXCEPT !.c = NotE(SwapE(e.c)), !.x = SwapE(e.y), !.y = SwapE(e.x)] ELSE [e EXCEPT !.x = SwapE(e.x), !.y = SwapE(e.y)]
    [] e.k \in {"cast", "sw", "as", "u"} -> [e EXCEPT !.x = SwapE(e.x)]
    [] e.k \in {"a", "s"} -> [e EXCEPT !.i = SwapE(e.i)]
    [] e.k \in {"lit", "f"} -> [e EXCEPT !.xs = TLCEval([j \in 1..Len(e.xs) |-> SwapE(e.xs[j])])]
    [] OTHER -> e
RECURSIVE SwapS(_), SwapB(_)
SwapB(b) == TLCEval([j \in 1..Len(b) |-> SwapS(b[j])])
SwapS(s) ==
  CASE s.k = "set" -> IF s.e.w = 1 THEN [s EXCEPT !.e = SwapE(s.e)] ELSE [k |-> "comp", i |-> s.i, cs |-> [c \in 1..s.e.w |-> c], e |-> SwapE(s.e)]
    [] s.k \in {"comp", "ast", "sset", "ret"} -> [s EXCEPT !.e = SwapE(s.e)]
    [] s.k = "if" -> [s EXCEPT !.c = NotE(SwapE(s.c)), !.th = SwapB(s.el), !.el = SwapB(s.th)]
    [] s.k = "for" -> [s EXCEPT !.c = SwapE(s.c), !.body = SwapB(s.body)]
    [] s.k = "switch" -> [s EXCEPT !.e = SwapE(s.e), !.cs = TLCEval([j \in 1..Len(s.cs) |-> [s.cs[j] EXCEPT !.body = SwapB(s.cs[j].body)]])]
    [] OTHER -> s
Swapped(p) == [p EXCEPT !.body = SwapB(p.body), !.fns = TLCEval([j \in 1..Len(p.fns) |-> [p.fns[j] EXCEPT !.body = SwapB(p.fns[j].body)]])]
Wrapped(p) == [p EXCEPT !.body = <<[k |-> "if", c |-> EInt(1, "int"), th |-> p.body, el |-> <<>>]>>]
InSwitch(p) == [p EXCEPT !.body = <<[k |-> "switch", e |-> EInt(8, "int"), cs |-> <<[n |-> 3, body |-> <<>>, brk |-> TRUE], [n |-> -1, body |-> <<>>, brk |-> FALSE], [n |-> 5, body |-> p.body, brk |-> TRUE]>>]>>]
Run(p, i) == LET e == FoldLeft(LAMBDA x, j : IF Done(x) THEN x ELSE TLCEval(StepM(x, p.fns, i - 1)), Start(p, i), Seqn(1000)) IN [v |-> SubSeq(e.fr[1].v, 1, 7), a |-> SubSeq(e.mem, 1, 4), s |-> e.fr[1].s, p |-> e.fr[1].p[6]]
Same == phase = "done" => \A i \in 1..NItems : \A q \in {Wrapped(prog), InSwitch(prog), Swapped(prog)} : Run(q, i) = outs[i]
MNext == Next
================================================================================
