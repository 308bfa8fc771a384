------------------------------ MODULE BuiltinGen ------------------------------
(* Every built-in at every type and width, on operands chosen around the        *)
(* boundaries of their types, with the results the specification defines.       *)
EXTENDS Builtin, Hsh, Json
CONSTANTS NCases, Seed, Sample, Exhaust                  \* combos c with c % Sample = Seed % Sample
VARIABLES c, phase
IntT == <<"char", "uchar", "short", "ushort", "int", "uint", "long", "ulong">>
AllT == IntT \o <<"float", "double">>
Ws == <<1, 2, 3, 4, 8, 16>>
VWs == <<2, 3, 4, 8, 16>>
PWs == <<2, 4, 8, 16>>
N(t) == Types[t].n
S(t) == Types[t].s
F(t) == Types[t].f
TypeOf(n, s) == CHOOSE t \in {IntT[i] : i \in 1..8} : N(t) = n /\ S(t) = s
SignedOf(t) == TypeOf(N(t), TRUE)
UnsignedOf(t) == TypeOf(N(t), FALSE)
Cross(f(_, _), A, B) == FoldLeft(LAMBDA x, a : x \o [j \in 1..Len(B) |-> f(a, B[j])], <<>>, A)
V(t, w) == [t |-> t, w |-> w]
C(k, f, args, res) == [k |-> k, f |-> f, args |-> args, res |-> res, x |-> ""]
Times(k, x) == [i \in 1..k |-> x]
Arity(f) == IF f \in {"abs", "clz", "popcount"} THEN 1 ELSE IF f \in {"mad_hi", "mad_sat", "mad24", "clamp", "bitselect"} THEN 3 ELSE 2
IntFns == <<"abs", "abs_diff", "add_sat", "sub_sat", "hadd", "rhadd", "mul_hi", "mad_hi", "mad_sat", "clz", "popcount", "rotate", "min", "max", "clamp">>
RelFns == <<"isequal", "isnotequal", "isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isordered", "isunordered", "isfinite", "isinf", "isnan", "isnormal", "signbit">>
ResT(f, t) == IF f \in {"abs", "abs_diff"} THEN UnsignedOf(t) ELSE t
Basic(f) == LET g(t, w) == C("fn", f, Times(Arity(f), V(t, w)), V(ResT(f, t), w)) IN Cross(g, IntT, Ws)
Scal(f) == LET g(t, w) == C("sc", f, <<V(t, w)>> \o Times(Arity(f) - 1, V(t, 1)), V(t, w)) IN Cross(g, IntT, VWs)
M24(f) == LET g(t, w) == C("24", f, Times(Arity(f), V(t, w)), V(t, w)) IN Cross(g, <<"int", "uint">>, Ws)
Ups == LET g(t, w) == C("fn", "upsample", <<V(t, w), V(UnsignedOf(t), w)>>, V(TypeOf(2 * N(t), S(t)), w)) IN Cross(g, SubSeq(IntT, 1, 6), Ws)
BitS == LET g(t, w) == C("fn", "bitselect", Times(3, V(t, w)), V(t, w)) IN Cross(g, AllT, Ws)
Sel(s) == LET g(t, w) == C("sel", "select", <<V(t, w), V(t, w), V(TypeOf(N(t), s), w)>>, V(t, w)) IN Cross(g, AllT, Ws)
AnyAll(f) == LET g(t, w) == C("any", f, <<V(t, w)>>, V("int", 1)) IN Cross(g, <<"char", "short", "int", "long">>, Ws)
RelF(f) == LET g(t, w) == C("rel", f, Times(IF f \in {"isfinite", "isinf", "isnan", "isnormal", "signbit"} THEN 1 ELSE 2, V(t, w)), V(IF t = "double" /\ w > 1 THEN "long" ELSE "int", w)) IN Cross(g, <<"float", "double">>, Ws)
Shuf(m) == LET g(t, w) == C("sh", "shuffle", <<V(t, m), V(UnsignedOf(t), w)>>, V(t, w)) IN Cross(g, AllT, PWs)
Shuf2(m) == LET g(t, w) == C("sh", "shuffle2", <<V(t, m), V(t, m), V(UnsignedOf(t), w)>>, V(t, w)) IN Cross(g, AllT, PWs)
Convs(u) == LET g(t, w) == C("cv", "", <<V(t, w)>>, V(u, w)) IN Cross(g, IntT, Ws)
ConvS(u) == LET g(t, w) == C("cs", "", <<V(t, w)>>, V(u, w)) IN Cross(g, IntT, Ws)
Room(t, w) == N(t) * (IF w = 3 THEN 4 ELSE w)
As(u) == LET g(t, w) == FoldLeft(LAMBDA x, v : IF Room(t, w) = Room(u, v) /\ (t # u \/ w # v) /\ (w = 3 => v = 3) /\ (v = 3 => w \in {3, 4} /\ N(t) = N(u)) THEN Append(x, C("as", "", <<V(t, w)>>, V(u, v))) ELSE x, <<>>, Ws)
         IN FoldLeft(LAMBDA x, y : x \o y, <<>>, Cross(g, AllT, Ws))
Mems(k, sp) == LET g(t, w) == [C(k, "", <<V(t, w)>>, V(t, w)) EXCEPT !.x = sp] IN Cross(g, AllT, VWs)
Each(op(_), xs) == FoldLeft(LAMBDA x, f : x \o op(f), <<>>, xs)
Combos == TLCEval(Each(Basic, IntFns) \o Each(Scal, <<"min", "max", "clamp">>) \o Each(M24, <<"mul24", "mad24">>) \o Ups \o BitS \o Each(Sel, <<TRUE, FALSE>>)
                  \o Each(AnyAll, <<"any", "all">>) \o Each(RelF, RelFns) \o Each(Shuf, PWs) \o Each(Shuf2, PWs) \o Each(Convs, IntT) \o Each(ConvS, IntT) \o Each(As, AllT)
                  \o Each(LAMBDA sp : Mems("vl", sp), <<"global", "local", "private", "constant">>) \o Each(LAMBDA sp : Mems("vs", sp), <<"global", "local", "private">>))
(* operands *)
HS(x) == Hash(x + 7919 * (Seed % 9973))
FloatOp(n, h, p) ==
  LET k == h % 12 m == h \div 12 z == Zero(n)
      v == CASE k = 0 -> z [] k = 1 -> IF n = 4 THEN <<0, 0, 128, 63>> ELSE <<0, 0, 0, 0, 0, 0, 240, 63>> [] k = 2 -> IF n = 4 THEN <<0, 0, 128, 127>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127>>
             [] k = 3 -> IF n = 4 THEN <<1, 0, 192, 127>> ELSE <<0, 2, 0, 0, 0, 0, 248, 127>> [] k = 4 -> One(n) [] k = 5 -> IF n = 4 THEN <<0, 0, 128, 0>> ELSE <<0, 0, 0, 0, 0, 0, 16, 0>>
             [] k = 6 -> IF n = 4 THEN <<255, 255, 127, 127>> ELSE <<255, 255, 255, 255, 255, 255, 239, 127>> [] k \in {7, 8} -> p [] k = 9 -> Add(p, One(n)) [] OTHER -> RandB(n, m)
      w == IF IsNan(v) THEN [v EXCEPT ![n - 1] = @ | (IF n = 4 THEN 64 ELSE 8)] ELSE v           \* quiet
  IN IF (m % 3) = 0 THEN [w EXCEPT ![n] = @ ^^ 128] ELSE w
Op(t, h, p) == IF F(t) THEN FloatOp(N(t), h, p) ELSE IntOp(N(t), h, p)
(* operand j of the case with number q: components; P: the operands so far *)
Vec(t, w, h, P) == TLCEval([i \in 1..w |-> Op(t, HS(h + i * 37), IF P # <<>> /\ Len(P[Len(P)]) >= i /\ Len(P[Len(P)][i]) = N(t) THEN P[Len(P)][i] ELSE One(N(t)))])
Raw(d, q) == FoldLeft(LAMBDA P, a : Append(P, Vec(a.t, a.w, HS(q * 4 + Len(P)), P)), <<>>, d.args)
At(P, j, i) == IF j > Len(P) THEN P[1][i] ELSE IF Len(P[j]) = 1 THEN P[j][1] ELSE P[j][i]
Fix(d, P, q) ==
  LET t == d.args[1].t IN
  CASE d.f = "clamp" -> FoldLeft(LAMBDA Q, i : IF Lt(Q[3][i], Q[2][i], S(t)) THEN [Q EXCEPT ![2][i] = Q[3][i], ![3][i] = Q[2][i]] ELSE Q, P, Seqn(Len(P[2])))
    [] d.k = "24" -> FoldLeft(LAMBDA Q, j : [Q EXCEPT ![j] = TLCEval([i \in 1..Len(@) |-> Ext(SubSeq(@[i], 1, 3), 4, S(t))])], P, Seqn(Len(P)))
    [] d.k = "any" -> IF q % 3 = 0 THEN P ELSE <<TLCEval([i \in 1..Len(P[1]) |-> IF HS(q * 3 + i) % 9 = 0 THEN P[1][i] ELSE [P[1][i] EXCEPT ![N(t)] = IF q % 3 = 1 THEN @ | 128 ELSE @ & 127]])>>
    [] OTHER -> P
Truth(d, x) == IF d.args[1].w = 1 THEN x # Zero(Len(x)) ELSE Neg(x)
Result(d, P) ==
  LET t == d.args[1].t n == N(t) w == d.res.w u == d.res.t IN
  CASE d.k \in {"fn", "sc", "24"} -> TLCEval([i \in 1..w |-> IntFn(d.f, n, S(t), At(P, 1, i), At(P, 2, i), At(P, 3, i))])
    [] d.k = "sel" -> TLCEval([i \in 1..w |-> IF Truth(d, P[3][i]) THEN P[2][i] ELSE P[1][i]])
    [] d.k = "any" -> LET b == IF d.f = "any" THEN \E i \in 1..Len(P[1]) : Neg(P[1][i]) ELSE \A i \in 1..Len(P[1]) : Neg(P[1][i]) IN <<Bool(b, 4)>>
    [] d.k = "rel" -> TLCEval([i \in 1..w |-> IF Rel(d.f, At(P, 1, i), At(P, 2, i)) THEN (IF w = 1 THEN One(N(u)) ELSE Ones(N(u))) ELSE Zero(N(u))])
    [] d.k = "sh" -> LET src == IF d.f = "shuffle" THEN P[1] ELSE P[1] \o P[2] IN TLCEval([i \in 1..w |-> src[1 + ModInt(P[Len(P)][i], Len(src))]])
    [] d.k = "cv" -> TLCEval([i \in 1..w |-> Conv(P[1][i], S(t), N(u), S(u), FALSE)])
    [] d.k = "cs" -> TLCEval([i \in 1..w |-> Conv(P[1][i], S(t), N(u), S(u), TRUE)])
    [] d.k = "as" -> LET b == TLCEval(FoldLeft(LAMBDA x, y : x \o y, <<>>, P[1])) IN TLCEval([i \in 1..w |-> SubSeq(b, 1 + (i - 1) * N(u), i * N(u))])
Room3(w) == 3 * w + 2
(* a work-item's block of memory, accessed at element base + off * width *)
MemCase(d, q) ==
  LET w == d.res.w n == N(d.res.t) off == HS(q * 5) % 3 base == HS(q * 5 + 1) % 3
      mem == TLCEval([i \in 1..Room3(w) |-> IF F(d.res.t) THEN FloatOp(n, HS(q * 70 + i), One(n)) ELSE RandB(n, HS(q * 70 + i))]) val == Vec(d.res.t, w, HS(q * 11 + 3), <<>>) lo == base + off * w IN
  [off |-> off, base |-> base, mem |-> mem, in |-> <<val>>, out |-> IF d.k = "vl" THEN SubSeq(mem, lo + 1, lo + w) ELSE TLCEval([i \in 1..Len(mem) |-> IF lo < i /\ i <= lo + w THEN val[i - lo] ELSE mem[i]])]
FnCase(d, q) == LET P == TLCEval(Fix(d, TLCEval(Raw(d, q)), q)) IN [in |-> P, out |-> Result(d, P)]
Cases(d, i) == [k \in 1..NCases |-> IF d.k \in {"vl", "vs"} THEN MemCase(d, HS(i * 64 + k)) ELSE FnCase(d, HS(i * 64 + k))]
(* all pairs of bytes: one record per function, type and first operand *)
ExF == <<"abs_diff", "add_sat", "sub_sat", "hadd", "rhadd", "mul_hi", "mad_hi", "mad_sat", "rotate", "min", "max", "bitselect">>
ExD(f, t) == C("fn", f, Times(Arity(f), V(t, 16)), V(ResT(f, t), 16))
ExCase(d, x, k, s) == LET P == TLCEval(<<Times(16, <<x>>), [i \in 1..16 |-> <<16 * k + i - 1>>]>> \o (IF Len(d.args) = 3 THEN <<Vec(d.args[1].t, 16, HS(s * 16 + k), <<>>)>> ELSE <<>>)) IN [in |-> P, out |-> Result(d, P)]
ExRec(i) == LET f == ExF[1 + (i % Len(ExF))] t == IF (i \div Len(ExF)) % 2 = 0 THEN "char" ELSE "uchar" x == i \div (2 * Len(ExF)) d == ExD(f, t) IN
            [d |-> d, rnd |-> 0, cases |-> [k \in 1..16 |-> ExCase(d, x, k - 1, i)]]
Init == c \in (IF Exhaust THEN 0..(2 * 256 * Len(ExF) - 1) ELSE {i \in 1..Len(Combos) : i % Sample = Seed % Sample}) /\ phase = "new"
Next == phase = "new" /\ phase' = "done" /\ UNCHANGED c
Emit == phase = "done" => PrintT(<<"T", ToJson(IF Exhaust THEN ExRec(c) ELSE [d |-> Combos[c], rnd |-> HS(c) % 5, cases |-> Cases(Combos[c], c)])>>)
===============================================================================
