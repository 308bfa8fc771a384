------------------------------- MODULE RaceGen -------------------------------
(* Random kernel runs: mostly free of races, by moving the ownership of zones *)
(* of memory with the fences, some of them then disturbed.                    *)
EXTENDS Race, Rnd, Json
CONSTANTS MaxLaunches
VARIABLES shape, launches, phase, step
vars == <<shape, launches, phase, step>>
Shapes == <<
  [g |-> <<6, 1, 1>>, l |-> <<2, 1, 1>>, o |-> <<0, 0, 0>>], [g |-> <<4, 4, 1>>, l |-> <<2, 2, 1>>, o |-> <<3, 1, 0>>],
  [g |-> <<7, 1, 1>>, l |-> <<3, 1, 1>>, o |-> <<10, 0, 0>>], [g |-> <<4, 2, 2>>, l |-> <<2, 1, 2>>, o |-> <<0, 0, 0>>],
  [g |-> <<5, 1, 1>>, l |-> <<1, 1, 1>>, o |-> <<1, 0, 0>>], [g |-> <<4, 1, 1>>, l |-> <<4, 1, 1>>, o |-> <<0, 0, 0>>],
  [g |-> <<2, 6, 1>>, l |-> <<1, 2, 1>>, o |-> <<0, 5, 0>>], [g |-> <<2, 3, 2>>, l |-> <<2, 1, 1>>, o |-> <<0, 0, 0>>],
  [g |-> <<3, 5, 1>>, l |-> <<2, 2, 1>>, o |-> <<1, 2, 0>>], [g |-> <<2, 2, 4>>, l |-> <<1, 2, 2>>, o |-> <<4, 0, 1>>]>>
Less(a, b) == IF a < b THEN a ELSE b
Groups(s, d) == (s.g[d] + s.l[d] - 1) \div s.l[d]
NG(s) == Groups(s, 1) * Groups(s, 2) * Groups(s, 3)
GroupId(s, g) == <<(g - 1) % Groups(s, 1), ((g - 1) \div Groups(s, 1)) % Groups(s, 2), (g - 1) \div (Groups(s, 1) * Groups(s, 2))>>
Extent(s, g, d) == Less(s.l[d], s.g[d] - GroupId(s, g)[d] * s.l[d])
NI(s, g) == Extent(s, g, 1) * Extent(s, g, 2) * Extent(s, g, 3)
Base(s, g) == FoldLeft(LAMBDA x, h : x + NI(s, h), 0, [h \in 1..(g - 1) |-> h])
(* memory: a zone of 32 bytes per item, then zones used in common; and 32 bytes per group for copies *)
Common(s, sp, g) == 32 * (IF sp = "g" THEN Base(s, NG(s) + 1) ELSE NI(s, 1))          \* read by all 32, atomics 16, same values 32, copied 32 (per group)
Sizes == <<1, 2, 4, 8, 16, 12, 24>>
Align(n) == IF n = 12 THEN 4 ELSE IF n = 24 THEN 8 ELSE n
Place(n, lo, size, k) == lo + Align(n) * (k % (1 + (size - n) \div Align(n)))
Acc(g, i, p, sp, k, n, off, v, d) == [g |-> g, i |-> i, p |-> p, sp |-> sp, off |-> off, n |-> n, k |-> k, v |-> v, d |-> d]
AtN(k) == IF k % 4 = 0 THEN 8 ELSE 4
(* one access of item i of group g in phase p, given the zone it owns there; h: random number *)
Normal(s, g, i, p, own, sp, h) ==
  LET n == NthSeq(Sizes, h \div 16) a == AtN(h \div 16) c == Common(s, sp, g) w == h % 16 v == (h \div 128) % 256 IN
  IF w < 4 THEN Acc(g, i, p, sp, "ld", n, Place(n, 32 * own, 32, h \div 1024), 0, 0)
  ELSE IF w < 8 THEN Acc(g, i, p, sp, "st", n, Place(n, 32 * own, 32, h \div 1024), v, (h \div 64) % 2)
  ELSE IF w < 9 THEN Acc(g, i, p, sp, "at", a, Place(a, 32 * own, 32, h \div 1024), 0, 0)
  ELSE IF w < 11 THEN Acc(g, i, p, sp, "ld", n, Place(n, c, 32, h \div 1024), 0, 0)
  ELSE IF w < 13 THEN Acc(g, i, p, sp, IF h % 32 < 16 THEN "at" ELSE "cf", a, Place(a, c + 32, 16, h \div 1024), 0, 0)
  ELSE IF w < 15 THEN Acc(g, i, p, sp, "st", n, Place(n, c + 48, 32, h \div 1024), 5, 0)
  ELSE Acc(g, i, p, sp, "ld", n, Place(n, c + 80 + (IF sp = "g" THEN 32 * (g - 1) ELSE 0), 32, h \div 1024), 0, 0)
(* anything anywhere *)
Wild(s, g, i, p, sp, h) ==
  LET w == h % 6 n == IF w < 4 THEN NthSeq(Sizes, h \div 8) ELSE AtN(h \div 8)
      size == Common(s, sp, g) + 80 + (IF sp = "g" THEN 32 * NG(s) ELSE 32)
  IN Acc(g, i, p, sp, IF w < 2 THEN "ld" ELSE IF w < 4 THEN "st" ELSE IF w = 4 THEN "at" ELSE "cf", n, Place(n, 0, size, h \div 7), (h \div 11) % 8, (h \div 64) % 2)
(* several accesses of one word (or parts of it) by a few items of at most two groups *)
Focus(s, np, useL, r) ==
  LET g1 == Rng(NG(s), r[1]) g2 == IF useL THEN g1 ELSE Rng(NG(s), r[2]) sp == IF useL THEN "l" ELSE "g"
      off == 8 * (r[3] % ((Common(s, sp, g1) + 80) \div 8)) n == IF r[4] % 3 = 0 THEN 8 ELSE 4 p1 == Rng(np, r[5])
      K(x) == r[6 + x] \div 16
      stores == r[13] % 4 = 0             \* only stores, at any time, of two values
      a(x) == LET g == IF K(x) % 3 = 0 THEN g2 ELSE g1 i == Rng(IF NI(s, g) > 2 THEN 2 ELSE NI(s, g), K(x) \div 3) p == IF stores \/ (K(x) \div 7) % 4 = 0 THEN Rng(np, K(x) \div 28) ELSE p1
                  k == IF stores THEN "st" ELSE NthSeq(<<"ld", "st", "at", "cf", "at", "ld", "st">>, K(x) \div 5) IN
              IF k = "ld" /\ K(x) % 5 = 0 THEN Acc(g, i, p, sp, k, 2, off + (2 * (K(x) % 2)), 0, 0)
              ELSE IF k = "st" /\ K(x) % 5 = 0 THEN Acc(g, i, p, sp, k, 1, off + (K(x) % 4), 5 + ((K(x) \div 9) % 2), 0)
              ELSE Acc(g, i, p, sp, k, n, off, 5 + (IF (K(x) \div 9) % 3 = 0 THEN 1 ELSE 0), 0)
  IN [x \in 1..(2 + (r[6] % 3)) |-> a(x)]
Fences == <<{"l", "g"}, {"l"}, {"g"}, {"l", "g"}, {"l"}, {"g"}, {}>>
Times(n) == [x \in 1..n |-> x]
(* copies use the zones for copied data; a copy in phase p is complete after it *)
Copy(s, g, p, h) ==
  LET sz == NthSeq(<<1, 2, 4, 8, 16>>, h) m == 1 + ((h \div 5) % (16 \div sz)) st == IF (h \div 8) % 3 = 0 /\ m * sz * 2 <= 32 THEN 2 ELSE 1
      lo == sz * ((h \div 16) % (1 + (32 - m * sz) \div sz)) go == sz * ((h \div 64) % (1 + (32 - m * sz * st) \div sz)) IN
  [p |-> p, sz |-> sz, n |-> m, st |-> st, dir |-> IF h % 2 = 0 THEN "in" ELSE "out", lo |-> Common(s, "l", g) + 80 + lo, go |-> Common(s, "g", g) + 80 + 32 * (g - 1) + go]
CopyAccs(s, g, c) ==
  LET ld == [x \in 1..c.n |-> x] IN
  FoldLeft(LAMBDA A, x : A \o <<Acc(g, 0, c.p, "l", IF c.dir = "in" THEN "st" ELSE "ld", c.sz, c.lo + (x - 1) * c.sz, -1, 0),
                                Acc(g, 0, c.p, "g", IF c.dir = "in" THEN "ld" ELSE "st", c.sz, c.go + (x - 1) * c.sz * c.st, -1, 0)>>, <<>>, ld)
Launch(s, r) ==
  LET np == Rng(4, r[1])
      useC == r[2] % 3 = 0
      ug == r[3] % 4 # 0 ul == r[3] % 4 # 1
      K(x) == (r[4 + (x % 13)] * 7 + r[17 + (x % 11)] * (1 + (x % 17)) + x * 40503) % 999983
      cph(g) == IF useC /\ K(g + 900) % 3 # 0 THEN Rng(np, K(g + 901)) ELSE 0
      copies == [g \in 1..NG(s) |-> IF cph(g) = 0 THEN <<>> ELSE <<Copy(s, g, cph(g), K(g + 333))>>]
      fen(g, p) == IF cph(g) = p THEN {"l", "g"} ELSE NthSeq(Fences, K(p + 50 * g))
      F == [g \in 1..NG(s) |-> [p \in 1..np |-> fen(g, p)]]
      loose == r[28] % 4 = 0              \* once in a while ownership moves with the wrong fence
      moves(g, p, sp) == Cardinality({q \in 1..(p - 1) : sp \in fen(g, q) \/ (loose /\ q = 1)})
      own(g, i, p, sp) == (IF sp = "g" THEN Base(s, g) ELSE 0) + ((i - 1 + moves(g, p, sp)) % NI(s, g))
      many(h) == h % 3
      space(h) == IF ~ug THEN "l" ELSE IF ~ul THEN "g" ELSE IF h % 2 = 0 THEN "l" ELSE "g"
      acc(g, i, p, j) == LET h == K(((g * 17 + i) * 5 + p) * 4 + j) sp == space(h \div 3) IN
                         IF ~useC /\ h % 16 = 15 THEN Normal(s, g, i, p, own(g, i, p, sp), sp, h - 15) ELSE Normal(s, g, i, p, own(g, i, p, sp), sp, h)
      one(g, i, p) == [j \in 1..many(K((g * 17 + i) * 5 + p)) |-> acc(g, i, p, j)]
      keep(a) == ~(a.k = "st" /\ a.v = 5 /\ a.d = 0 /\ r[29] % 2 = 0 /\ a.off >= Common(s, a.sp, a.g) + 48 /\ a.off < Common(s, a.sp, a.g) + 80)     \* half of the runs without uniform writes
      all == FoldLeft(LAMBDA A, g : FoldLeft(LAMBDA B, i : FoldLeft(LAMBDA C, p : C \o SelectSeq(one(g, i, p), keep), B, Times(np)), A, Times(NI(s, g))), <<>>, Times(NG(s)))
      wg == Rng(NG(s), r[30]) wi == Rng(NI(s, wg), r[31]) wp == Rng(np, r[30] \div 7)
      wild == IF r[32] % 5 < 2 THEN <<Wild(s, wg, wi, wp, space(r[31] \div 5), K(777))>> ELSE <<>>
      focus == IF r[32] % 5 > 2 THEN Focus(s, np, IF ~ug THEN TRUE ELSE IF ~ul THEN FALSE ELSE r[12] % 2 = 0, r) ELSE <<>>
      second == IF r[32] % 10 = 0 THEN <<[(Wild(s, Rng(NG(s), r[31] \div 3), 1, Rng(np, r[30] \div 11), space(r[31] \div 5), K(778))) EXCEPT !.off = wild[1].off, !.n = wild[1].n, !.k = IF @ \in {"ld", "st"} THEN IF wild[1].n \in {4, 8} THEN @ ELSE "st" ELSE IF wild[1].n \in {4, 8} THEN @ ELSE "st"]>> ELSE <<>>
  IN [np |-> np, F |-> F, copies |-> copies, acc |-> all \o focus \o wild \o second]
Cop(s, L) == FoldLeft(LAMBDA A, g : IF L.copies[g] = <<>> THEN A ELSE A \o CopyAccs(s, g, L.copies[g][1]), <<>>, Times(NG(s)))
Judge(s, L) ==
  \E A \in {TLCEval(L.acc \o Cop(s, L))} : \E Q \in {TLCEval(Pairs(L.F, A))} :
     launches' = Append(launches, [L |-> L, A |-> A, races |-> SetToSeq({[a |-> q[1], b |-> q[2], rw |-> RW(A[q[1]], A[q[2]]), ww |-> WW(A[q[1]], A[q[2]]),
                                         lo |-> Less(1000000, CHOOSE x \in Overlap(A[q[1]], A[q[2]]) : \A y \in Overlap(A[q[1]], A[q[2]]) : x <= y),
                                         must |-> MustBytes(A[q[1]], A[q[2]], TRUE), may |-> MayBytes(A[q[1]], A[q[2]], TRUE), all |-> Overlap(A[q[1]], A[q[2]])] : q \in Q})])
Init == shape = 0 /\ launches = <<>> /\ phase = "new" /\ step = 0
(* (a conjunct before \E keeps TLC from drawing once and for all) *)
Next == step' = step + 1 /\ \E r \in {Draw(step)} :
          \/ phase = "new" /\ shape' = Rng(Len(Shapes), r[1]) /\ phase' = "run" /\ UNCHANGED launches
          \/ phase = "run" /\ Len(launches) < MaxLaunches /\ Judge(Shapes[shape], Launch(Shapes[shape], r)) /\ UNCHANGED <<shape, phase>>
          \/ phase = "run" /\ Len(launches) = MaxLaunches /\ phase' = "done" /\ UNCHANGED <<shape, launches>>
Emit == phase = "done" => PrintT(<<"T", ToJson([shape |-> Shapes[shape], groups |-> [g \in 1..NG(Shapes[shape]) |-> [id |-> GroupId(Shapes[shape], g), n |-> NI(Shapes[shape], g), ext |-> <<Extent(Shapes[shape], g, 1), Extent(Shapes[shape], g, 2), Extent(Shapes[shape], g, 3)>>]],
                                                gsize |-> Common(Shapes[shape], "g", 1) + 80 + 32 * NG(Shapes[shape]), lsize |-> Common(Shapes[shape], "l", 1) + 112, launches |-> launches])>>)
=============================================================================
