--------------------------------- MODULE Kern ---------------------------------
(* A machine that runs kernels written in a subset of OpenCL C: integer scalars *)
(* and vectors, arrays, pointers, structs, branches, loops, switches and calls. *)
(* A value is a sequence of components; a component is a sequence of bytes.     *)
EXTENDS Builtin
N(t) == Types[t].n
S(t) == Types[t].s
IntT == <<"char", "uchar", "short", "ushort", "int", "uint", "long", "ulong">>
TypeOf(n, s) == CASE n = 1 -> (IF s THEN "char" ELSE "uchar") [] n = 2 -> (IF s THEN "short" ELSE "ushort") [] n = 4 -> (IF s THEN "int" ELSE "uint") [] n = 8 -> (IF s THEN "long" ELSE "ulong")
SignedOf(t) == TypeOf(N(t), TRUE)
UnsignedOf(t) == TypeOf(N(t), FALSE)
(* integer promotion and the usual arithmetic conversions *)
Prom(t) == IF N(t) < 4 THEN "int" ELSE t
UAC(a, b) == LET p == Prom(a) q == Prom(b) IN IF N(p) > N(q) THEN p ELSE IF N(q) > N(p) THEN q ELSE IF S(p) THEN q ELSE p
To(x, a, b) == Conv(x, S(a), N(b), S(b), FALSE)
Truth(v) == v[1] # Zero(Len(v[1]))
Low(v) == v[1][1]                                   \* the lowest byte of a scalar
ArithOps == {"+", "-", "*", "/", "%", "&", "|", "^"}
CmpOps == {"<", ">", "<=", ">=", "==", "!="}
Arith(o, t, x, y) ==
  CASE o = "+" -> Add(x, y) [] o = "-" -> Sub(x, y) [] o = "*" -> Mul(x, y) [] o = "/" -> DivMod(x, y, S(t))[1] [] o = "%" -> DivMod(x, y, S(t))[2]
    [] o = "&" -> BAnd(x, y) [] o = "|" -> BOr(x, y) [] o = "^" -> BXor(x, y)
    [] o = "<<" -> Shl(x, ModInt(y, 8 * N(t))) [] o = ">>" -> Shr(x, ModInt(y, 8 * N(t)), S(t))
Cmp(o, t, x, y) ==
  CASE o = "<" -> Lt(x, y, S(t)) [] o = ">" -> Lt(y, x, S(t)) [] o = "<=" -> ~Lt(y, x, S(t)) [] o = ">=" -> ~Lt(x, y, S(t)) [] o = "==" -> x = y [] o = "!=" -> x # y
ScalarBin(o, a, b, x, y) ==                          \* operand types and values
  IF o \in {"<<", ">>"} THEN Arith(o, Prom(a), To(x, a, Prom(a)), y)
  ELSE LET r == UAC(a, b) IN IF o \in CmpOps THEN Bool(Cmp(o, r, To(x, a, r), To(y, b, r)), 4) ELSE Arith(o, r, To(x, a, r), To(y, b, r))
At(v, i) == IF Len(v) = 1 THEN v[1] ELSE v[i]
VecBin(o, t, w, x, y) == TLCEval([i \in 1..w |->
  IF o \in CmpOps THEN (IF Cmp(o, t, At(x, i), At(y, i)) THEN Ones(N(t)) ELSE Zero(N(t)))
  ELSE IF o = "&&" THEN (IF At(x, i) # Zero(N(t)) /\ At(y, i) # Zero(N(t)) THEN Ones(N(t)) ELSE Zero(N(t)))
  ELSE IF o = "||" THEN (IF At(x, i) # Zero(N(t)) \/ At(y, i) # Zero(N(t)) THEN Ones(N(t)) ELSE Zero(N(t)))
  ELSE Arith(o, t, At(x, i), At(y, i))])
Flat(v) == TLCEval(FoldLeft(LAMBDA x, y : x \o y, <<>>, v))
(* frames: v variables, p pointers ([a array, o offset]), s structs; mem: arrays *)
RECURSIVE Eval(_, _, _, _)
Eval(e, F, mem, id) ==
  CASE e.k = "c" -> e.val
    [] e.k = "v" -> F.v[e.i]
    [] e.k = "id" -> <<FromInt(id, 8)>>
    [] e.k = "a" -> LET p == F.p[e.r] IN mem[p.a][1 + p.o + (Low(Eval(e.i, F, mem, id)) & e.m)]
    [] e.k = "s" -> F.s[1 + (Low(Eval(e.i, F, mem, id)) & (Len(F.s) - 1))][e.f]
    [] e.k = "u" -> LET x == TLCEval(Eval(e.x, F, mem, id)) t == e.x.t IN
         IF e.w = 1 THEN IF e.o = "!" THEN <<Bool(~Truth(x), 4)>> ELSE LET y == To(x[1], t, e.t) IN <<IF e.o = "-" THEN Negate(y) ELSE BNot(y)>>
         ELSE TLCEval([i \in 1..e.w |-> IF e.o = "!" THEN (IF x[i] = Zero(N(t)) THEN Ones(N(t)) ELSE Zero(N(t))) ELSE IF e.o = "-" THEN Negate(x[i]) ELSE BNot(x[i])])
    [] e.k = "b" ->
         IF e.w = 1 /\ e.o = "&&" THEN <<Bool(Truth(Eval(e.x, F, mem, id)) /\ Truth(Eval(e.y, F, mem, id)), 4)>>
         ELSE IF e.w = 1 /\ e.o = "||" THEN <<Bool(Truth(Eval(e.x, F, mem, id)) \/ Truth(Eval(e.y, F, mem, id)), 4)>>
         ELSE LET x == TLCEval(Eval(e.x, F, mem, id)) y == TLCEval(Eval(e.y, F, mem, id)) IN
              IF e.w = 1 THEN <<ScalarBin(e.o, e.x.t, e.y.t, x[1], y[1])>> ELSE VecBin(e.o, e.x.t, e.w, x, y)
    [] e.k = "q" ->
         IF e.w = 1 THEN LET r == IF Truth(Eval(e.c, F, mem, id)) THEN e.x ELSE e.y IN <<To(Eval(r, F, mem, id)[1], r.t, e.t)>>
         ELSE LET c == TLCEval(Eval(e.c, F, mem, id)) x == TLCEval(Eval(e.x, F, mem, id)) y == TLCEval(Eval(e.y, F, mem, id)) IN TLCEval([i \in 1..e.w |-> IF Neg(c[i]) THEN x[i] ELSE y[i]])
    [] e.k = "cast" -> LET x == TLCEval(Eval(e.x, F, mem, id)) IN TLCEval([i \in 1..e.w |-> To(x[i], e.x.t, e.t)])
    [] e.k = "sw" -> LET x == TLCEval(Eval(e.x, F, mem, id)) IN TLCEval([i \in 1..e.w |-> x[e.cs[i]]])
    [] e.k = "lit" -> IF Len(e.xs) = 1 /\ e.xs[1].w = 1 THEN LET x == TLCEval(Eval(e.xs[1], F, mem, id)[1]) IN TLCEval([i \in 1..e.w |-> x])
                      ELSE TLCEval(FoldLeft(LAMBDA a, x : a \o Eval(x, F, mem, id), <<>>, e.xs))
    [] e.k = "pe" -> <<Bool(F.p[e.r] = F.p[e.r2], 4)>>
    [] e.k = "as" -> LET b == Flat(Eval(e.x, F, mem, id)) IN TLCEval([i \in 1..e.w |-> SubSeq(b, 1 + (i - 1) * N(e.t), i * N(e.t))])
    [] e.k = "f" -> LET v == TLCEval([j \in 1..3 |-> IF j <= Len(e.xs) THEN Eval(e.xs[j], F, mem, id) ELSE <<>>]) IN
         TLCEval([i \in 1..e.w |-> IntFn(e.o, N(e.t), S(e.t), v[1][i], IF Len(e.xs) > 1 THEN v[2][i] ELSE <<>>, IF Len(e.xs) > 2 THEN v[3][i] ELSE <<>>)])
(* the machine: [fr |-> stack of frames, mem |-> arrays] runs the first statement of the topmost frame *)
Put(v, c, x) == FoldLeft(LAMBDA a, j : [a EXCEPT ![c[j]] = x[j]], v, Seqn(Len(c)))
RECURSIVE DropTo(_, _)
DropTo(ks, code) == IF code[1].k \in ks THEN code ELSE DropTo(ks, Tail(code))
CaseAt(cs, n) == LET hit == {i \in 1..Len(cs) : cs[i].n = n} def == {i \in 1..Len(cs) : cs[i].n = -1} IN
                 IF hit # {} THEN CHOOSE i \in hit : TRUE ELSE IF def # {} THEN CHOOSE i \in def : TRUE ELSE 0
RECURSIVE FromCase(_, _)
FromCase(cs, i) == IF i = 0 \/ i > Len(cs) THEN <<>> ELSE IF cs[i].brk THEN cs[i].body ELSE cs[i].body \o FromCase(cs, i + 1)
Running(m) == m.fr # <<>>
StepM(m, fns, id) ==
  LET d == Len(m.fr) F == m.fr[d] st == F.code[1] rest == Tail(F.code)
      E(e) == TLCEval(Eval(e, F, m.mem, id))
      Go(code) == [m EXCEPT !.fr[d].code = code]
      SetV(i, v, code) == [m EXCEPT !.fr[d].v[i] = v, !.fr[d].code = code]
      Elem(r, i, mask) == LET p == F.p[r] IN <<p.a, 1 + p.o + (Low(E(i)) & mask)>>
  IN
  CASE st.k = "set" -> SetV(st.i, E(st.e), rest)
    [] st.k = "comp" -> SetV(st.i, Put(F.v[st.i], st.cs, E(st.e)), rest)
    [] st.k = "ast" -> LET l == Elem(st.r, st.i, st.m) x == E(st.e) IN [Go(rest) EXCEPT !.mem[l[1]][l[2]] = IF st.cs = <<>> THEN x ELSE Put(@, st.cs, x)]
    [] st.k = "acpy" -> LET l == Elem(st.r, st.i, st.m) s == Elem(st.r2, st.i2, st.m2) IN [Go(rest) EXCEPT !.mem[l[1]][l[2]] = m.mem[s[1]][s[2]]]
    [] st.k = "if" -> Go((IF Truth(E(st.c)) THEN st.th ELSE st.el) \o rest)
    [] st.k = "for" -> SetV(st.i, <<Zero(4)>>, <<[k |-> IF st.post THEN "body" ELSE "test", i |-> st.i, c |-> st.c, body |-> st.body]>> \o rest)
    [] st.k = "test" -> Go(IF Truth(E(st.c)) THEN st.body \o <<[st EXCEPT !.k = "next"]>> \o rest ELSE rest)
    [] st.k = "body" -> Go(st.body \o <<[st EXCEPT !.k = "next"]>> \o rest)
    [] st.k = "next" -> SetV(st.i, <<Add(F.v[st.i][1], One(4))>>, <<[st EXCEPT !.k = "test"]>> \o rest)
    [] st.k = "brk" -> Go(Tail(DropTo({"next", "endsw"}, rest)))      \* the innermost loop or switch
    [] st.k = "cont" -> Go(DropTo({"next"}, rest))
    [] st.k = "switch" -> Go(FromCase(st.cs, CaseAt(st.cs, Low(E(st.e)) & 7)) \o <<[k |-> "endsw"]>> \o rest)
    [] st.k = "endsw" -> Go(rest)
    [] st.k = "pset" -> LET p == F.p[st.r] IN [Go(rest) EXCEPT !.fr[d].p[st.p] = [a |-> p.a, o |-> (Low(E(st.e)) & 3)]]
    [] st.k = "sset" -> [Go(rest) EXCEPT !.fr[d].s[1 + (Low(E(st.i)) & (Len(F.s) - 1))][st.f] = E(st.e)]
    [] st.k = "scpy" -> LET x == F.s[1 + (Low(E(st.i2)) & (Len(F.s) - 1))] IN [Go(rest) EXCEPT !.fr[d].s[1 + (Low(E(st.i)) & (Len(F.s) - 1))] = x]
    [] st.k = "call" ->                        \* values, pointers and structs to the callee's frame
         LET f == fns[st.f] new == [v |-> [j \in 1..Len(f.vars) |-> IF j <= Len(st.xs) THEN E(st.xs[j]) ELSE [c \in 1..f.vars[j].w |-> Zero(N(f.vars[j].t))]],
                                    p |-> [j \in 1..Len(st.ps) |-> F.p[st.ps[j]]],
                                    s |-> IF st.s = <<>> THEN <<>> ELSE <<F.s[1 + (Low(E(st.s[1])) & (Len(F.s) - 1))]>>,
                                    code |-> f.body, dst |-> [k |-> IF st.s = <<>> THEN "v" ELSE "s", i |-> st.dst, at |-> IF st.s = <<>> THEN 0 ELSE 1 + (Low(E(st.s[2])) & (Len(F.s) - 1))]]
         IN [Go(rest) EXCEPT !.fr = Append(@, TLCEval(new))]
    [] st.k = "ret" ->
         IF d = 1 THEN [m EXCEPT !.fr[1].code = <<>>]
         ELSE IF F.dst.k = "s" THEN [m EXCEPT !.fr = [SubSeq(@, 1, d - 1) EXCEPT ![d - 1].s[F.dst.at] = F.s[1]]]
         ELSE [m EXCEPT !.fr = [SubSeq(@, 1, d - 1) EXCEPT ![d - 1].v[F.dst.i] = E(st.e)]]
Done(m) == Len(m.fr) = 1 /\ m.fr[1].code = <<>>
==============================================================================
