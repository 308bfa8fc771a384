-------------------------------- MODULE KernGen --------------------------------
(* Random kernels, run by the machine of Kern for a few work-items each.         *)
EXTENDS Kern, Hsh, Rnd, Json
CONSTANTS NItems, Depth
VARIABLES prog, m, outs, phase, step
vars == <<prog, m, outs, phase, step>>
Ty(t, w) == [t |-> t, w |-> w]
PickT(h) == IntT[1 + (h % 8)]
Pick(s, h) == s[1 + (h % Len(s))]
Ws == <<2, 3, 4, 4, 2, 8, 16>>
PickW(h) == Pick(Ws, h)
PickTy(h) == IF h % 5 < 3 THEN Ty(PickT(h \div 5), 1) ELSE Ty(PickT(h \div 5), PickW(h \div 40))
(* expressions: [k, t, w, ...] *)
EC(t, v) == [k |-> "c", t |-> t, w |-> Len(v), val |-> v]
EInt(i, t) == EC(t, <<FromInt(i, N(t))>>)
EV(X, i) == [k |-> "v", t |-> X.vars[i].t, w |-> X.vars[i].w, i |-> i]
Cast(e, t) == IF e.t = t THEN e ELSE [k |-> "cast", t |-> t, w |-> e.w, x |-> e]
Bin(o, x, y, t) == [k |-> "b", o |-> o, t |-> t, w |-> x.w, x |-> x, y |-> y]
Splat(x, w) == [k |-> "lit", t |-> x.t, w |-> w, xs |-> <<x>>]
Leaf(h, t, w, X) ==
  LET q == h \div 8 k == h % 8
      same == SelectSeq(X.rd, LAMBDA i : X.vars[i].t = t /\ X.vars[i].w = w) any == SelectSeq(X.rd, LAMBDA i : X.vars[i].w = w)
      one == SelectSeq(X.rd, LAMBDA i : X.vars[i].w = 1)
      scal == IF k = 7 \/ one = <<>> THEN EC(t, <<IntOp(N(t), Sub_(q, 1), One(N(t)))>>) ELSE IF k = 6 THEN Cast([k |-> "id", t |-> "ulong", w |-> 1], t) ELSE Cast(EV(X, Pick(one, q)), t) IN
  IF same # <<>> /\ k < 5 THEN EV(X, Pick(same, q))
  ELSE IF any # <<>> /\ k < 6 THEN Cast(EV(X, Pick(any, q)), t)
  ELSE IF w = 1 THEN scal
  ELSE IF k = 6 THEN EC(t, [i \in 1..w |-> IntOp(N(t), Sub_(q, i), One(N(t)))]) ELSE Splat(scal, w)
Refs(X, t, w) == SelectSeq(X.refs, LAMBDA r : r.t = t /\ r.w = w)
Flds(X, t, w) == SelectSeq(Seqn(Len(X.sf)), LAMBDA f : X.sf[f].t = t /\ X.sf[f].w = w)
UFns1 == <<"abs", "popcount", "clz">>
UFns == <<"add_sat", "sub_sat", "hadd", "rhadd", "mul_hi", "min", "max", "rotate", "abs_diff", "mad_sat", "clamp0", "bitselect">>
Guarded(y, t, h) == \* a divisor that is not zero and not -1
  LET c(i) == IF y.w = 1 THEN EInt(i, t) ELSE Splat(EInt(i, t), y.w) IN
  IF ~S(t) THEN Bin("|", y, c(1), t)
  ELSE IF h % 2 = 0 THEN Bin("|", Bin("&", y, (IF y.w = 1 THEN EC(t, <<MaxOf(N(t), TRUE)>>) ELSE Splat(EC(t, <<MaxOf(N(t), TRUE)>>), y.w)), t), c(1), t)
  ELSE Bin("-", Bin("&", y, c(7), t), c(11), t)
Pieces(w, h) == CASE w = 2 -> <<1, 1>> [] w = 3 -> IF h % 2 = 0 THEN <<1, 2>> ELSE <<2, 1>> [] w = 4 -> Pick(<<<<2, 2>>, <<1, 3>>, <<1, 1, 2>>>>, h) [] w = 8 -> Pick(<<<<4, 4>>, <<2, 2, 4>>>>, h) [] w = 16 -> Pick(<<<<8, 8>>, <<4, 4, 8>>>>, h)
(* shapes of code that optimisers replace as a whole; the result has type t *)
Idiom(h, t, w, X) ==
  LET q == h \div 16 a(i) == Sub_(h, i)
      u == IF w = 1 THEN Pick(<<"uint", "ulong", "uint", "ushort", "uchar">>, q) ELSE UnsignedOf(t)
      s == SignedOf(u) n == 8 * N(u) pu == IF w = 1 THEN Prom(u) ELSE u ps == IF w = 1 THEN Prom(s) ELSE s
      uu == IF w = 1 /\ N(u) < 4 THEN "uint" ELSE u nn == 8 * N(uu)
      x == Leaf(a(1), uu, w, X) y == Leaf(a(2), uu, w, X) sx == Leaf(a(3), s, w, X) sy == Leaf(a(4), s, w, X)
      c(i, ty) == IF w = 1 THEN EInt(i, ty) ELSE Splat(EInt(i, ty), w)
      k(v, ty) == IF w = 1 THEN EC(ty, <<v>>) ELSE Splat(EC(ty, <<v>>), w)
      B(o, e, f, ty) == Bin(o, e, f, ty)
      cmp(o, e, f) == B(o, e, f, IF w = 1 THEN "int" ELSE SignedOf(e.t))
      Q(cnd, e, f) == [k |-> "q", t |-> IF w = 1 THEN UAC(e.t, f.t) ELSE e.t, w |-> w, c |-> cnd, x |-> e, y |-> f]
      sh == 1 + (a(5) % (nn - 1))
  IN Cast(
  CASE h % 16 = 0 -> B("|", B("<<", x, c(sh, uu), uu), B(">>", x, c(nn - sh, uu), uu), uu)
    [] h % 16 = 1 -> B("|", B(">>", x, B("&", y, c(nn - 1, uu), uu), uu), B("<<", x, B("&", B("-", c(nn, uu), y, uu), c(nn - 1, uu), uu), uu), uu)
    [] h % 16 = 2 -> LET z == Cast(sx, uu) IN Q(cmp("<", sx, c(0, s)), B("-", c(0, uu), z, uu), z)
    [] h % 16 = 3 -> Q(cmp(Pick(<<"<", ">", "<=">>, q), sx, sy), sx, sy)
    [] h % 16 = 4 -> Q(cmp(Pick(<<"<", ">", ">=">>, q), x, y), x, y)
    [] h % 16 = 5 -> Q(cmp(">", x, y), B("-", x, y, uu), c(0, uu))
    [] h % 16 = 6 -> LET z == B("+", x, y, uu) IN Q(cmp("<", z, x), k(MaxOf(N(uu), FALSE), uu), z)
    [] h % 16 = 7 -> IF w > 1 THEN B("&", x, B("-", x, c(1, uu), uu), uu)
                     ELSE [k |-> "q", t |-> "int", w |-> 1, c |-> cmp("<", sx, sy), x |-> EC("int", <<Ones(4)>>), y |-> cmp(">", sx, sy)]
    [] h % 16 = 8 -> IF w > 1 \/ uu = "ulong" THEN B("&", x, B("-", c(0, uu), x, uu), uu)
                     ELSE LET p == B("*", Cast(x, "ulong"), Cast(y, "ulong"), "ulong") IN Q(cmp(">", p, EC("ulong", <<MaxOf(4, FALSE) \o Zero(4)>>)), EInt(5, "ulong"), p)
    [] h % 16 = 9 -> IF uu # "uint" THEN B("^", x, B(">>", x, c(sh, uu), uu), uu)
                     ELSE B("|", B("|", B("<<", B("&", x, c(255, uu), uu), c(24, uu), uu), B("<<", B("&", x, c(65280, uu), uu), c(8, uu), uu), uu),
                                 B("|", B("&", B(">>", x, c(8, uu), uu), c(65280, uu), uu), B(">>", x, c(24, uu), uu), uu), uu)
    [] h % 16 = 10 -> IF w > 1 \/ s # "int" THEN Q(cmp("==", x, y), c(3, uu), x)
                     ELSE LET z == B(Pick(<<"+", "-">>, q), Cast(sx, "long"), Cast(sy, "long"), "long") hi == Cast(EC("int", <<MaxOf(4, TRUE)>>), "long") lo == Cast(EC("int", <<MinOf(4, TRUE)>>), "long") IN
                          Q(cmp(">", z, hi), hi, Q(cmp("<", z, lo), lo, z))
    [] h % 16 = 11 -> B(Pick(<<"/", "%">>, q), sx, c(Pick(<<2, 3, 4, 7, 8, 10, 16, 64, 100>>, a(6)), s), IF w = 1 THEN Prom(s) ELSE s)
    [] h % 16 = 12 -> B(Pick(<<"/", "%">>, q), x, c(Pick(<<2, 3, 4, 7, 8, 10, 16, 64, 100>>, a(6)), uu), uu)
    [] h % 16 = 13 -> B(Pick(<<"&&", "||">>, q), cmp(">=", sx, c(3, s)), cmp("<", sx, c(77, s)), IF w = 1 THEN "int" ELSE s)
    [] h % 16 = 14 -> B(">>", B("<<", x, c(sh, uu), uu), c(sh, uu), uu)
    [] OTHER -> Cast(B(">>", x, c(sh, uu), uu), Pick(<<"uchar", "char", "short", "ushort">>, q)), t)
RECURSIVE GE(_, _, _, _, _)
GE(h, d, t, w, X) ==
  LET k == (h % 97) q == h \div 97 a(i) == Sub_(h, i) IN
  IF d = 0 \/ k % 9 = 0 THEN Leaf(a(1), t, w, X)
  ELSE IF k % 9 = 1 /\ q % 3 < 2 THEN Idiom(a(2), t, w, X)
  ELSE LET G(i, u, v) == GE(a(10 + i), d - 1, u, v, X)
           fn(f) == IF f \in {"abs", "abs_diff"} /\ S(t) THEN "max" ELSE f
           F(f) == LET n == IF f \in {"abs", "popcount", "clz"} THEN 1 ELSE IF f \in {"mad_sat", "bitselect", "clamp0"} THEN 3 ELSE 2 IN
                   IF f = "clamp0" THEN [k |-> "f", o |-> "clamp", t |-> t, w |-> w, xs |-> <<G(1, t, w), EC(t, [i \in 1..w |-> MinOf(N(t), S(t))]), EC(t, [i \in 1..w |-> MaxOf(N(t), TRUE)])>>]
                   ELSE [k |-> "f", o |-> f, t |-> t, w |-> w, xs |-> [j \in 1..n |-> G(j, t, w)]]
           load == LET rs == Refs(X, t, w) fs == Flds(X, t, w) IN
                   IF rs # <<>> /\ (fs = <<>> \/ q % 2 = 0) THEN LET r == Pick(rs, a(2)) IN [k |-> "a", t |-> t, w |-> w, r |-> r.r, i |-> G(3, PickT(a(4)), 1), m |-> r.m]
                   ELSE IF fs # <<>> THEN [k |-> "s", t |-> t, w |-> w, i |-> G(3, PickT(a(4)), 1), f |-> Pick(fs, a(5))]
                   ELSE IF w = 1 /\ X.refs # <<>> THEN LET rs1 == SelectSeq(X.refs, LAMBDA r : r.w = 1) IN
                        IF rs1 = <<>> THEN Leaf(a(1), t, w, X) ELSE LET r == Pick(rs1, a(2)) IN Cast([k |-> "a", t |-> r.t, w |-> 1, r |-> r.r, i |-> G(3, PickT(a(4)), 1), m |-> r.m], t)
                   ELSE Leaf(a(1), t, w, X)
       IN
  IF w = 1 THEN
    LET ta == PickT(a(2)) tb == PickT(a(3)) r == UAC(ta, tb)
        okay == ~S(r) \/ (N(ta) < 4 /\ N(tb) < 4) tu == IF okay THEN ta ELSE UnsignedOf(r) IN
    CASE k < 22 -> LET o == Pick(<<"+", "-", "*", "+", "-">>, q) IN Cast(Bin(o, G(1, tu, 1), G(2, tb, 1), UAC(tu, tb)), t)
      [] k < 30 -> Cast(Bin(Pick(<<"&", "|", "^">>, q), G(1, ta, 1), G(2, tb, 1), r), t)
      [] k < 38 -> Cast(Bin(Pick(<<"<<", ">>", ">>">>, q), G(1, ta, 1), G(2, tb, 1), Prom(ta)), t)
      [] k < 44 -> Cast(Bin(Pick(<<"/", "%">>, q), Cast(G(1, ta, 1), r), Guarded(Cast(G(2, tb, 1), r), r, a(4)), r), t)
      [] k < 52 -> Cast(Bin(Pick(<<"<", ">", "<=", ">=", "==", "!=">>, q), G(1, ta, 1), G(2, tb, 1), "int"), t)
      [] k < 55 -> Cast(Bin(Pick(<<"&&", "||">>, q), G(1, ta, 1), G(2, tb, 1), "int"), t)
      [] k < 61 -> Cast([k |-> "q", t |-> r, w |-> 1, c |-> G(1, PickT(a(5)), 1), x |-> G(2, ta, 1), y |-> G(3, tb, 1)], t)
      [] k < 66 -> Cast(G(1, ta, 1), t)
      [] k < 73 -> LET v == PickW(a(5)) IN [k |-> "sw", t |-> t, w |-> 1, x |-> G(1, t, v), cs |-> <<1 + (q % v)>>]
      [] k < 78 -> F(IF q % 3 = 0 THEN fn(Pick(UFns1, a(6))) ELSE fn(Pick(UFns, a(6))))
      [] k < 83 -> LET o == Pick(<<"~", "!", "-">>, q) u == IF o = "-" /\ ~(~S(ta) \/ N(ta) < 4) THEN UnsignedOf(ta) ELSE ta IN Cast([k |-> "u", o |-> o, t |-> IF o = "!" THEN "int" ELSE Prom(u), w |-> 1, x |-> G(1, u, 1)], t)
      [] k < 92 -> load
      [] k < 94 /\ X.pe -> Cast([k |-> "pe", t |-> "int", w |-> 1, r |-> 6, r2 |-> 1 + (q % 2)], t)
      [] OTHER -> LET u == IF S(t) THEN UnsignedOf(t) ELSE SignedOf(t) v == N(t) IN
                  IF v = 1 \/ q % 2 = 0 THEN [k |-> "as", t |-> t, w |-> 1, x |-> G(1, u, 1)] ELSE [k |-> "as", t |-> t, w |-> 1, x |-> G(1, TypeOf(v \div 2, q % 4 = 1), 2)]
  ELSE
    CASE k < 22 -> Bin(Pick(<<"+", "-", "*", "&", "|", "^">>, q), G(1, t, w), IF a(3) % 3 = 0 THEN G(2, t, 1) ELSE G(2, t, w), t)
      [] k < 29 -> Bin(Pick(<<"<<", ">>">>, q), G(1, t, w), G(2, t, w), t)
      [] k < 34 -> Bin(Pick(<<"/", "%">>, q), G(1, t, w), Guarded(G(2, t, w), t, a(4)), t)
      [] k < 44 /\ S(t) -> LET u == IF a(3) % 2 = 0 THEN t ELSE UnsignedOf(t) IN Bin(Pick(<<"<", ">", "<=", ">=", "==", "!=", "&&", "||">>, q), G(1, u, w), G(2, u, w), t)
      [] k < 50 -> [k |-> "q", t |-> t, w |-> w, c |-> G(1, SignedOf(t), w), x |-> G(2, t, w), y |-> G(3, t, w)]
      [] k < 56 -> Cast(G(1, PickT(a(2)), w), t)
      [] k < 66 -> LET v == PickW(a(5)) IN [k |-> "sw", t |-> t, w |-> w, x |-> G(1, t, v), cs |-> [i \in 1..w |-> 1 + (Sub_(q, i) % v)]]
      [] k < 74 -> LET ps == Pieces(w, q) IN [k |-> "lit", t |-> t, w |-> w, xs |-> [i \in 1..Len(ps) |-> G(i, t, ps[i])]]
      [] k < 77 -> Splat(G(1, t, 1), w)
      [] k < 82 -> F(IF q % 3 = 0 THEN fn(Pick(UFns1, a(6))) ELSE fn(Pick(UFns, a(6))))
      [] k < 86 -> LET o == IF S(t) THEN Pick(<<"~", "!", "-">>, q) ELSE Pick(<<"~", "-">>, q) IN [k |-> "u", o |-> o, t |-> t, w |-> w, x |-> G(1, t, w)]
      [] k < 94 -> load
      [] OTHER -> LET u == PickT(a(2)) b == N(t) * w IN
                  IF w = 3 \/ b % N(u) # 0 \/ (b \div N(u)) \notin {1, 2, 4, 8, 16} THEN Leaf(a(1), t, w, X) ELSE [k |-> "as", t |-> t, w |-> w, x |-> G(1, u, b \div N(u))]
(* statements *)
Distinct(n, w, h) == [i \in 1..n |-> 1 + (((h % w) + (i - 1) * (IF w % 3 # 0 /\ h % 2 = 0 THEN 3 ELSE 1)) % w)]
RECURSIVE GB(_, _, _), GS(_, _, _)
GS(h, d, X) ==
  LET k == h % 33 q == h \div 33 a(i) == Sub_(h, i) E(i, t, w) == GE(a(i), Depth, t, w, X)
      set == LET i == Pick(X.wr, a(1)) IN <<[k |-> "set", i |-> i, e |-> E(2, X.vars[i].t, X.vars[i].w)]>>
      vecs == SelectSeq(X.wr, LAMBDA i : X.vars[i].w > 1)
      wrefs == SelectSeq(X.refs, LAMBDA r : ~r.ro)
      cond == E(3, PickT(a(4)), 1)
      body(i, Y) == GB(a(20 + i), d - 1, Y)
  IN
  CASE k < 9 -> set
    [] k < 12 -> IF vecs = <<>> THEN set ELSE LET i == Pick(vecs, a(1)) w == X.vars[i].w n == Pick(<<1, 1, 2, 4>>, a(2)) IN
                 IF n > w THEN set ELSE <<[k |-> "comp", i |-> i, cs |-> Distinct(n, w, q), e |-> E(3, X.vars[i].t, n)]>>
    [] k < 16 -> IF wrefs = <<>> THEN set ELSE LET r == Pick(wrefs, a(1)) part == r.w > 1 /\ a(5) % 2 = 0 IN
                 <<[k |-> "ast", r |-> r.r, t |-> r.t, m |-> r.m, i |-> GE(a(2), 1, PickT(a(4)), 1, X), cs |-> IF part THEN <<1 + (q % r.w)>> ELSE <<>>, e |-> E(3, r.t, IF part THEN 1 ELSE r.w)]>>
    [] k < 19 -> IF d = 0 THEN set ELSE <<[k |-> "if", c |-> cond, th |-> body(1, X), el |-> IF q % 2 = 0 THEN body(2, X) ELSE <<>>]>>
    [] k < 22 -> IF d = 0 \/ X.loops = <<>> THEN set ELSE
                 LET i == X.loops[1] Y == [X EXCEPT !.loops = Tail(@), !.rd = Append(@, i), !.inl = TRUE] IN
                 <<[k |-> "for", i |-> i, post |-> q % 4 = 0, c |-> Bin("<", EV(X, i), Bin("&", Cast(GE(a(3), 1, PickT(a(4)), 1, X), "int"), EInt(3, "int"), "int"), "int"), body |-> body(1, Y)]>>
    [] k < 24 -> IF d = 0 THEN set ELSE
                 LET n == 2 + (q % 3) IN <<[k |-> "switch", e |-> cond, cs |-> [j \in 1..n |-> [n |-> IF j = 1 + (a(5) % (n + 1)) THEN -1 ELSE (j * 3 + (q % 5)) % 8, body |-> body(j, [X EXCEPT !.insw = TRUE]), brk |-> j = n \/ a(6 + j) % 3 # 0]]]>>
    [] k < 25 -> IF ~X.inl /\ ~X.insw THEN set ELSE <<[k |-> "if", c |-> cond, th |-> <<[k |-> IF q % 2 = 0 \/ ~X.inl THEN "brk" ELSE "cont"]>>, el |-> <<>>]>>
    [] k < 27 -> IF X.fns = <<>> THEN set ELSE
                 LET f == Pick(X.fns, a(1)) IN
                 IF f.s THEN IF X.sf = <<>> \/ ~X.sa THEN set ELSE <<[k |-> "call", f |-> f.f, xs |-> [j \in 1..Len(f.ps) |-> E(4 + j, f.ps[j].t, f.ps[j].w)], ps |-> <<>>, s |-> <<GE(a(2), 1, PickT(a(3)), 1, X), GE(a(4), 1, PickT(a(5)), 1, X)>>, dst |-> 0]>>
                 ELSE LET c == SelectSeq(X.wr, LAMBDA i : X.vars[i] = f.ret) rs == SelectSeq(X.refs, LAMBDA r : r.pv) IN
                      IF c = <<>> \/ (f.ptr /\ rs = <<>>) THEN set
                      ELSE <<[k |-> "call", f |-> f.f, xs |-> [j \in 1..Len(f.ps) |-> E(4 + j, f.ps[j].t, f.ps[j].w)], ps |-> IF f.ptr THEN <<Pick(rs, q).r>> ELSE <<>>, s |-> <<>>, dst |-> Pick(c, a(9))]>>
    [] k < 28 -> IF X.loops = <<>> \/ X.refs = <<>> THEN set ELSE     \* a loop over the elements of an array
                 LET i == X.loops[1] ix == EV(X, i) r == Pick(X.refs, a(1)) ld == [k |-> "a", t |-> r.t, w |-> r.w, r |-> r.r, i |-> ix, m |-> r.m]
                     into == SelectSeq(X.wr, LAMBDA v : X.vars[v].w = r.w /\ (r.w = 1 \/ X.vars[v].t = r.t)) others == SelectSeq(Refs(X, r.t, r.w), LAMBDA z : ~z.ro)
                     v == Pick(into, a(2)) vt == X.vars[v].t o == IF q % 4 < 2 THEN "+" ELSE Pick(<<"^", "|", "&">>, a(3)) tu == IF r.w = 1 /\ o = "+" THEN UnsignedOf(Prom(vt)) ELSE vt
                     bodyv == CASE q % 3 = 0 /\ others # <<>> -> <<[k |-> "ast", r |-> others[1].r, t |-> r.t, m |-> others[1].m, i |-> ix, cs |-> <<>>, e |-> IF q % 2 = 0 THEN GE(a(4), 1, r.t, r.w, X) ELSE ld]>>
                                [] q % 3 # 0 /\ into # <<>> -> <<[k |-> "set", i |-> v, e |-> Cast(Bin(o, Cast(EV(X, v), tu), Cast(ld, tu), IF r.w = 1 THEN Prom(tu) ELSE tu), vt)]>>
                                [] OTHER -> set
                 IN <<[k |-> "for", i |-> i, post |-> q % 8 = 0, c |-> Bin("<", ix, EInt(r.m + 1, "int"), "int"), body |-> bodyv]>>
    [] k < 29 -> IF ~X.pe THEN set ELSE <<[k |-> "pset", p |-> 6, r |-> 1 + (q % 2), e |-> GE(a(3), 1, PickT(a(4)), 1, X)]>>
    [] k < 30 -> IF X.sf = <<>> THEN set ELSE LET f == 1 + (q % Len(X.sf)) IN <<[k |-> "sset", i |-> GE(a(2), 1, PickT(a(4)), 1, X), f |-> f, e |-> E(3, X.sf[f].t, X.sf[f].w)]>>
    [] k > 30 -> IF X.loops = <<>> THEN set ELSE        \* a loop in which variables of one type change places
                 LET i == X.loops[1] x == Pick(X.wr, a(1)) same == SelectSeq(X.wr, LAMBDA v : v # x /\ X.vars[v] = X.vars[x])
                     pairs == SelectSeq(X.wr, LAMBDA v : Cardinality({u \in Range(X.wr) : X.vars[u] = X.vars[v]}) > 2) IN
                 IF pairs = <<>> THEN set ELSE
                 LET z == IF Len(same) > 1 THEN x ELSE pairs[1] o == SelectSeq(X.wr, LAMBDA v : v # z /\ X.vars[v] = X.vars[z]) y == o[1 + (q % 2)] t == o[2 - (q % 2)] ty == X.vars[z]
                     op(e) == IF ty.w = 1 THEN Cast(Bin("^", e, EInt(1 + (q % 99), ty.t), Prom(ty.t)), ty.t) ELSE Bin(Pick(<<"+", "*", "^">>, a(2)), e, Splat(EInt(1 + (q % 99), ty.t), ty.w), ty.t)
                     sets == CASE q % 4 = 0 -> <<<<t, EV(X, z)>>, <<z, EV(X, y)>>, <<y, EV(X, t)>>>>
                               [] q % 4 = 1 -> <<<<t, EV(X, z)>>, <<z, EV(X, y)>>, <<y, op(EV(X, t))>>>>
                               [] q % 4 = 2 -> <<<<t, EV(X, z)>>, <<z, op(EV(X, y))>>, <<y, EV(X, t)>>>>
                               [] OTHER -> <<<<t, op(EV(X, y))>>, <<y, EV(X, z)>>, <<z, EV(X, t)>>>> IN
                 <<[k |-> "for", i |-> i, post |-> FALSE, c |-> Bin("<", EV(X, i), Bin("+", Bin("&", Cast(GE(a(3), 1, PickT(a(4)), 1, X), "int"), EInt(3, "int"), "int"), EInt(1 + (a(5) % 2), "int"), "int"), "int"),
                    body |-> [j \in 1..3 |-> [k |-> "set", i |-> sets[j][1], e |-> sets[j][2]]] \o (IF a(6) % 3 = 0 THEN set ELSE <<>>)]>>
    [] OTHER -> IF X.sf = <<>> \/ ~X.sa THEN
                   LET same == SelectSeq(wrefs, LAMBDA r : Len(Refs(X, r.t, r.w)) > 1) IN
                   IF same = <<>> THEN set ELSE LET r == Pick(same, a(1)) s == Pick(Refs(X, r.t, r.w), a(2)) IN
                   <<[k |-> "acpy", r |-> r.r, m |-> r.m, i |-> GE(a(3), 1, PickT(a(4)), 1, X), r2 |-> s.r, m2 |-> s.m, i2 |-> GE(a(5), 1, PickT(a(6)), 1, X)]>>
                ELSE <<[k |-> "scpy", i |-> GE(a(2), 1, PickT(a(4)), 1, X), i2 |-> GE(a(3), 1, PickT(a(5)), 1, X)]>>
GB(h, d, X) == FoldLeft(LAMBDA b, i : b \o GS(Sub_(h, 40 + i), d, X), <<>>, Seqn(1 + (h % 3)))
Block(h, n, d, X) == FoldLeft(LAMBDA b, i : b \o GS(Sub_(h, i), d, X), <<>>, Seqn(n))
(* functions *)
Ret(e) == <<[k |-> "ret", e |-> e]>>
FnCtx(vs, np, refs, sf, fns) == [vars |-> vs, rd |-> Seqn(Len(vs) - 1), wr |-> Seqn(Len(vs) - 1), refs |-> refs, sf |-> sf, sa |-> FALSE, pe |-> FALSE, fns |-> fns, loops |-> <<Len(vs)>>, inl |-> FALSE, insw |-> FALSE]
MakeFn(h, ps, ret, refs, sf, fns) ==
  LET vs == ps \o <<PickTy(Sub_(h, 1)), PickTy(Sub_(h, 2)), Ty("int", 1)>> X == FnCtx(vs, Len(ps), refs, sf, fns)
      e(i) == IF ret.w = 0 THEN EInt(0, "int") ELSE GE(Sub_(h, i), Depth, ret.t, ret.w, X)
      early == IF h % 2 = 0 THEN <<[k |-> "if", c |-> GE(Sub_(h, 5), 2, PickT(Sub_(h, 6)), 1, X), th |-> Block(Sub_(h, 7), 1, 0, X) \o Ret(e(8)), el |-> <<>>]>> ELSE <<>>
  IN [vars |-> vs, np |-> Len(ps), ret |-> ret, ptr |-> refs # <<>>, s |-> sf # <<>>, body |-> Block(Sub_(h, 3), 1 + (h % 3), 1, X) \o early \o Block(Sub_(h, 9), 1 + ((h \div 4) % 2), 1, X) \o Ret(e(10))]
MakeProg(h) ==
  LET a(i) == Sub_(h, i)
      s1 == Ty(PickT(a(1)), 1) c1 == a(60) % 3 = 0 c2 == a(61) % 2 = 0 v4 == IF c2 THEN Ty(PickT(a(6)), PickW(a(7))) ELSE PickTy(a(4))
      vs == <<s1, IF c1 THEN s1 ELSE Ty(PickT(a(2)), 1), IF c1 THEN s1 ELSE Ty(PickT(a(3)), 1), v4, IF c2 THEN v4 ELSE PickTy(a(5)), Ty(PickT(a(6)), PickW(a(7))), Ty(PickT(a(8)), PickW(a(9))), Ty("int", 1), Ty("int", 1)>>
      at == IF a(10) % 2 = 0 THEN vs[1 + (a(11) % 7)] ELSE PickTy(a(12))
      arrs == <<at, at, PickTy(a(13)), PickTy(a(14)), PickTy(a(15))>>
      ref(r) == [r |-> r, t |-> arrs[r].t, w |-> arrs[r].w, m |-> 7, ro |-> r = 5, pv |-> r < 3]
      refs == [r \in 1..6 |-> IF r = 6 THEN [ref(1) EXCEPT !.r = 6, !.m = 3] ELSE ref(r)]
      used == SelectSeq(refs, LAMBDA r : a(20 + r.r) % 3 # 0)
      sf == IF a(30) % 2 = 0 THEN <<>> ELSE <<PickTy(a(31)), vs[1 + (a(32) % 7)], PickTy(a(33)), Ty(PickT(a(34)), 1)>>
      f1 == MakeFn(a(35), <<PickTy(a(36)), vs[1 + (a(37) % 7)]>>, vs[1 + (a(38) % 7)], <<>>, <<>>, <<>>)
      d1 == [f |-> 1, s |-> FALSE, ptr |-> FALSE, ps |-> SubSeq(f1.vars, 1, 2), ret |-> f1.ret]
      f2 == MakeFn(a(39), <<PickTy(a(40))>>, vs[1 + (a(41) % 7)], <<[ref(1) EXCEPT !.r = 1, !.m = 3]>>, <<>>, <<d1>>)
      d2 == [f |-> 2, s |-> FALSE, ptr |-> TRUE, ps |-> SubSeq(f2.vars, 1, 1), ret |-> f2.ret]
      f3 == MakeFn(a(42), <<PickTy(a(43))>>, Ty("S", 0), <<>>, sf, <<d1>>)
      d3 == [f |-> 3, s |-> TRUE, ptr |-> FALSE, ps |-> SubSeq(f3.vars, 1, 1), ret |-> Ty("S", 0)]
      X == [vars |-> vs, rd |-> Seqn(7), wr |-> Seqn(7), refs |-> used, sf |-> sf, sa |-> TRUE, pe |-> \E j \in 1..Len(used) : used[j].r = 6,
            fns |-> <<d1, d2>> \o (IF sf = <<>> THEN <<>> ELSE <<d3>>), loops |-> <<8, 9>>, inl |-> FALSE, insw |-> FALSE]
      val(u, s) == [c \in 1..u.w |-> IntOp(N(u.t), Sub_(s, c), One(N(u.t)))]
  IN [vars |-> vs, arrs |-> arrs, sf |-> sf, fns |-> IF sf = <<>> THEN <<f1, f2>> ELSE <<f1, f2, f3>>, body |-> Block(a(50), 5 + (h % 5), 2, X),
      const |-> [j \in 1..8 |-> val(arrs[5], Sub_(a(51), j))],
      items |-> [i \in 1..NItems |-> [v |-> [j \in 1..7 |-> val(vs[j], Sub_(a(52 + i), j))],
                                      a |-> [r \in 1..4 |-> [j \in 1..8 |-> val(arrs[r], Sub_(a(52 + i), 10 * r + j))]],
                                      s |-> [j \in 1..4 |-> [f \in 1..Len(sf) |-> val(sf[f], Sub_(Sub_(a(52 + i), 60 + j), f))]]]]]
Start(p, i) ==
  [fr |-> <<[v |-> p.items[i].v \o <<<<Zero(4)>>, <<Zero(4)>>>>, p |-> [r \in 1..6 |-> [a |-> IF r = 6 THEN 1 ELSE r, o |-> 0]], s |-> IF p.sf = <<>> THEN <<>> ELSE p.items[i].s, code |-> p.body, dst |-> 0]>>,
   mem |-> p.items[i].a \o <<p.const>>]
Init == prog = 0 /\ m = 0 /\ outs = <<>> /\ phase = "new" /\ step = 0
Next == step' = step + 1 /\
  \/ phase = "new" /\ \E r \in {Draw(step)} : prog' = TLCEval(MakeProg(Hash(r[1] + 100000 * (r[2] % 1000)))) /\ phase' = "item" /\ UNCHANGED <<m, outs>>
  \/ phase = "item" /\ Len(outs) < NItems /\ m' = TLCEval(Start(prog, Len(outs) + 1)) /\ phase' = "run" /\ UNCHANGED <<prog, outs>>
  \/ phase = "item" /\ Len(outs) = NItems /\ phase' = "done" /\ UNCHANGED <<prog, m, outs>>
  \/ phase = "run" /\ ~Done(m) /\ m' = TLCEval(StepM(m, prog.fns, Len(outs))) /\ UNCHANGED <<prog, outs, phase>>
  \/ phase = "run" /\ Done(m) /\ outs' = Append(outs, TLCEval([v |-> SubSeq(m.fr[1].v, 1, 7), a |-> SubSeq(m.mem, 1, 4), s |-> m.fr[1].s, p |-> m.fr[1].p[6]])) /\ phase' = "item" /\ UNCHANGED <<prog, m>>
Emit == phase = "done" => PrintT(<<"T", ToJson([p |-> prog, outs |-> outs, steps |-> step])>>)
================================================================================
