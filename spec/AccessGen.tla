------------------------------- MODULE AccessGen ------------------------------
(* Random histories: allocations with permissions, mappings, launches whose    *)
(* items make one access each (and whose groups make asynchronous copies),      *)
(* buffers freed while kernels still know their addresses.                      *)
EXTENDS Access, Rnd, Json
CONSTANTS MaxSteps, Perms, Maps       \* with permissions, with mappings
VARIABLES objs, b, maps, nextm, log, step, phase
vars == <<objs, b, maps, nextm, log>>
NG == 5
(* 1..5 global buffers, 6 a constant argument, 7 a program-scope constant, 8 a local array, 9 a local argument, 10 a private array, 11 null, 12 nothing *)
CONST == 6
PROGC == 7
LARR == 8
LARG == 9
PRIV == 10
Size(r, i) == 8 * Rng(6, r) - (IF (r \div 7) % 2 = 0 THEN 0 ELSE (r \div 14) % 8)      \* not always a whole number of elements
Flag(r) == IF ~Perms THEN "rw" ELSE NthSeq(<<"rw", "rw", "ro", "wo">>, r)
InitObjs(r) == [i \in 1..12 |-> IF i <= CONST THEN [size |-> Size(r[i], i), alive |-> TRUE, flag |-> Flag(r[6 + i])]
                                ELSE [size |-> CASE i = PROGC -> 20 [] i = LARR -> 40 [] i = LARG -> 24 [] i = PRIV -> 24 [] OTHER -> 0, alive |-> i <= PRIV, flag |-> "rw"]]
Byte(i, j) == (i * 41 + j * 7) % 256
InitB(os) == [i \in 1..7 |-> [j \in 1..os[i].size |-> Byte(i, j)]]
LInit == [i \in {LARR, LARG} |-> [j \in 1..(IF i = LARR THEN 40 ELSE 24) |-> 7]]
PInit == [j \in 1..24 |-> 9]
(* ---- one access ---- *)
Kinds == <<<<"ld", 1>>, <<"ld", 2>>, <<"ld", 4>>, <<"ld", 8>>, <<"ld", 16>>, <<"ld", 32>>, <<"st", 1>>, <<"st", 2>>, <<"st", 4>>, <<"st", 8>>, <<"st", 16>>, <<"st", 32>>,
           <<"vl", 4>>, <<"vl", 12>>, <<"vl", 16>>, <<"vs", 4>>, <<"vs", 12>>, <<"vs", 16>>, <<"hl", 2>>, <<"hl", 8>>, <<"hs", 8>>, <<"sl", 24>>, <<"ss", 24>>,
           <<"at", 4>>, <<"at", 8>>, <<"cx", 4>>, <<"cx", 8>>, <<"at", 4>>, <<"cx", 4>>>>
Align(k, n) == IF k \in {"vl", "vs"} THEN (IF n = 12 THEN 4 ELSE 1) ELSE IF k \in {"hl", "hs"} THEN 2 ELSE IF k \in {"sl", "ss"} THEN 8 ELSE n
Off(size, n, al, k) ==
  LET d == k \div 8
      o == CASE k % 8 = 0 -> size - n + 1 + (d % n) [] k % 8 = 1 -> 0 - (1 + (d % n)) [] k % 8 = 2 -> IF d % 3 = 0 THEN 0 - 100 - (d % 60) ELSE IF d % 3 = 1 THEN size + 64 ELSE size
             [] OTHER -> IF size >= n THEN d % (size - n + 1) ELSE 0
      a == o \div al
  IN a * al
Draft(k1, k2, k3) ==
  LET kn == NthSeq(Kinds, k1) sp == NthSeq(<<1, 2, 3, 4, 5, 1, 2, 3, CONST, PROGC, LARR, LARG, PRIV, 11, 12>>, k2)
      \* only loads through constant pointers, atomics on global and local memory
      kk == IF sp \in {CONST, PROGC} /\ kn[1] \notin {"ld", "vl", "sl"} THEN NthSeq(<<<<"ld", 4>>, <<"vl", 12>>, <<"ld", 16>>>>, k3)
            ELSE IF sp = PRIV /\ kn[1] \in {"at", "cx"} THEN <<"ld", 4>> ELSE kn
  IN [k |-> kk[1], sp |-> sp, off |-> Off(objs[sp].size, kk[2], Align(kk[1], kk[2]), k3), n |-> kk[2], v |-> IF kk[1] = "hs" THEN k1 % 120 ELSE k1 % 256, cmp |-> k2 % 256, does |-> TRUE]
(* cells of memory shared by several items, by instance *)
Cells(a, g, i) == {<<a.sp, CASE a.sp \in {LARR, LARG} -> g [] a.sp = PRIV -> i [] OTHER -> 0, x>> : x \in (a.off + 1)..(a.off + a.n)}
(* acc: [b, loc (per group), prv, W, R, out] *)
Mem(acc, a, g) == CASE a.sp \in {LARR, LARG} -> acc.loc[g][a.sp] [] a.sp = PRIV -> PInit [] a.sp > 10 -> <<>> [] OTHER -> acc.b[a.sp]
OneAccess(acc, g, i, k1, k2, k3) ==
  \* (bound by CHOOSE: TLC evaluates a LET definition again at every use)
  LET d0 == Draft(k1, k2, k3)
      m == Mem(acc, d0, g)
      eq == d0.k = "cx" /\ Inside(objs[d0.sp], d0.off, d0.n) /\ m[d0.off + 1] % 2 = k3 % 2
      d1 == IF d0.k = "cx" THEN [d0 EXCEPT !.cmp = IF Inside(objs[d0.sp], d0.off, d0.n) THEN m[d0.off + 1] ELSE 0] ELSE d0
      d == [d1 EXCEPT !.does = d1.k # "cx" \/ (Inside(objs[d1.sp], d1.off, d1.n) /\ Same(m, d1.off, d1.n, d1.cmp))]
      in == Inside(objs[d.sp], d.off, d.n)
      cells == Cells(d, g, i)
      skip == in /\ (cells \cap acc.W # {} \/ (Writes(d.k) /\ cells \cap acc.R # {}))
      nb == After(objs, m, d)
      a2 == [acc EXCEPT !.out = Append(@, [k |-> d.k, sp |-> d.sp, off |-> d.off, n |-> d.n, v |-> d.v, cmp |-> d.cmp, obs |-> Seen(objs, m, d), rep |-> SetToSeq(AccessReports(objs, maps, d)),
                                            prv |-> IF d.sp = PRIV THEN nb ELSE PInit])]
  IN IF skip THEN [acc EXCEPT !.out = Append(@, [k |-> "no", sp |-> 1, off |-> 0, n |-> 0, v |-> 0, cmp |-> 0, obs |-> <<>>, rep |-> <<>>, prv |-> PInit])]
     ELSE IF ~in THEN a2
     ELSE LET a3 == IF Writes(d.k) THEN [a2 EXCEPT !.W = @ \cup cells] ELSE [a2 EXCEPT !.R = @ \cup cells] IN
          CASE d.sp \in {LARR, LARG} -> [a3 EXCEPT !.loc[g][d.sp] = nb] [] d.sp = PRIV -> a3 [] OTHER -> [a3 EXCEPT !.b[d.sp] = nb]
(* ---- an asynchronous copy of a group between buffer o and the local array, elementwise ---- *)
Elem(acc, c, g, j) ==
  LET ge == [k |-> IF c.dir = "in" THEN "ld" ELSE "st", sp |-> c.o, off |-> c.go + (j - 1) * c.st * c.sz, n |-> c.sz, v |-> 0, cmp |-> 0, does |-> TRUE]
      le == [k |-> IF c.dir = "in" THEN "st" ELSE "ld", sp |-> LARR, off |-> c.lo + (j - 1) * c.sz, n |-> c.sz, v |-> 0, cmp |-> 0, does |-> TRUE]
      src == IF c.dir = "in" THEN ge ELSE le dst == IF c.dir = "in" THEN le ELSE ge
      sin == Inside(objs[src.sp], src.off, src.n) din == Inside(objs[dst.sp], dst.off, dst.n)
      sm == Mem(acc, src, g) dm == Mem(acc, dst, g)
      nm == TLCEval([x \in DOMAIN dm |-> IF x > dst.off /\ x <= dst.off + dst.n THEN sm[src.off + (x - dst.off)] ELSE dm[x]])
      may == acc.may \cup {x[1] : x \in AccessReports(objs, maps, src)} \cup {x[1] : x \in AccessReports(objs, maps, dst)}
      must == acc.must \cup {x[1] : x \in AccessReports(objs, maps, src)} \cup (IF sin THEN {x[1] : x \in AccessReports(objs, maps, dst)} ELSE {})
      a2 == [acc EXCEPT !.may = may, !.must = must]
  IN IF ~sin \/ ~din THEN a2 ELSE IF dst.sp = LARR THEN [a2 EXCEPT !.loc[g][LARR] = nm] ELSE [a2 EXCEPT !.b[dst.sp] = nm]
GCells(c) == {<<c.o, 0, x>> : x \in UNION {(c.go + (j - 1) * c.st * c.sz + 1)..(c.go + (j - 1) * c.st * c.sz + c.sz) : j \in 1..c.n}}
Copy(acc, g, k1, k2, k3) ==
  LET sz == NthSeq(<<1, 2, 4, 8, 16>>, k1) st == 1 + (IF k2 % 3 = 0 THEN (k2 \div 3) % 3 ELSE 0) n == Rng(4, k3)
      o == Rng(NG, k1 \div 5)
      c == [dir |-> IF k2 % 2 = 0 THEN "in" ELSE "out", o |-> o, sz |-> sz, st |-> st, n |-> n,
            go |-> Off(objs[o].size, sz * ((n - 1) * st + 1), sz, k3 \div 4), lo |-> Off(40, sz * n, sz, IF k1 % 4 = 0 THEN k2 ELSE k2 * 8 + 5)]
      cells == GCells(c)
      skip == cells \cap acc.W # {} \/ (c.dir = "out" /\ cells \cap acc.R # {})
      no == [acc EXCEPT !.cps = Append(@, [dir |-> "no", o |-> 1, sz |-> 1, st |-> 1, n |-> 0, go |-> 0, lo |-> 0, may |-> <<>>, must |-> <<>>])]
  IN IF skip THEN no
     ELSE LET a1 == FoldLeft(LAMBDA a, j : Elem(a, c, g, j), [acc EXCEPT !.may = {}, !.must = {}], [x \in 1..n |-> x])
              a2 == [a1 EXCEPT !.cps = Append(@, [dir |-> c.dir, o |-> o, sz |-> sz, st |-> st, n |-> n, go |-> c.go, lo |-> c.lo, may |-> SetToSeq(a1.may), must |-> SetToSeq(a1.must)])]
          IN IF c.dir = "out" THEN [a2 EXCEPT !.W = @ \cup cells] ELSE [a2 EXCEPT !.R = @ \cup cells]
Launch(r) ==
  LET G == Rng(3, r[1]) L == Rng(4, r[2])
      K(g, i, j) == (r[3 + ((g + i + j) % 9)] * (2 * i + 1) + r[13 + ((i * j + g) % 9)] * (j + 2)) % 99991
      copying == r[23] % 2 = 0
      \* a group: its copy, then its items
      grp(acc, g) == LET a1 == IF copying THEN Copy(acc, g, K(g, 9, 1), K(g, 9, 2), K(g, 9, 3)) ELSE acc IN
                     FoldLeft(LAMBDA a, i : OneAccess(a, g, (g - 1) * L + i, K(g, i, 1), K(g, i, 2), K(g, i, 3)), a1, [x \in 1..L |-> x])
      acc0 == [b |-> b, loc |-> [g \in 1..G |-> LInit], W |-> {}, R |-> {}, out |-> <<>>, cps |-> <<>>, may |-> {}, must |-> {}]
  IN \E acc \in {FoldLeft(grp, acc0, [x \in 1..G |-> x])} :
     /\ b' = acc.b
     /\ log' = Append(log, [op |-> "launch", G |-> G, L |-> L, acc |-> acc.out, cps |-> acc.cps, loc |-> acc.loc, b |-> acc.b, via |-> [i \in 1..CONST |-> IF r[23 + i] % 3 = 0 THEN r[23 + i] % objs[i].size ELSE 0],
                            thr |-> NthSeq(<<1, 2, 4, 8>>, r[30])])
     /\ UNCHANGED <<objs, maps, nextm>>
Live == {i \in 1..CONST : objs[i].alive}
Map(r) ==
  /\ Maps /\ Live # {} /\ Cardinality(maps) < 4
  /\ LET o == Nth(Live, r[1]) off == r[2] % objs[o].size n == Rng(objs[o].size - off, r[3]) k == NthSeq(<<"r", "w", "rw", "inv">>, r[4]) IN
     IF \E m \in maps : m.o = o /\ m.off = off THEN UNCHANGED vars
     ELSE /\ maps' = maps \cup {[o |-> o, off |-> off, n |-> n, kind |-> k, id |-> nextm]} /\ nextm' = nextm + 1
          /\ log' = Append(log, [op |-> "map", o |-> o, off |-> off, n |-> n, kind |-> k, id |-> nextm, via |-> IF r[5] % 3 = 0 THEN r[6] % (off + 1) ELSE 0])
          /\ UNCHANGED <<objs, b>>
Unmap(r) == /\ maps # {} /\ LET m == Nth(maps, r[1]) IN maps' = maps \ {m} /\ log' = Append(log, [op |-> "unmap", id |-> m.id])
            /\ UNCHANGED <<objs, b, nextm>>
Free(r) == /\ ~Maps
           /\ LET o == Rng(NG, r[1]) IN IF ~objs[o].alive THEN UNCHANGED vars
              ELSE objs' = [objs EXCEPT ![o].alive = FALSE] /\ b' = [b EXCEPT ![o] = <<>>] /\ log' = Append(log, [op |-> "free", o |-> o]) /\ UNCHANGED <<maps, nextm>>
(* the host's own transfers are no kernel accesses *)
Host(r) == /\ Live # {}
           /\ LET o == Nth(Live, r[1]) off == r[2] % objs[o].size n == Rng(objs[o].size - off, r[3]) IN
              /\ b' = [b EXCEPT ![o] = Fill(@, off, n, r[4] % 256)] /\ log' = Append(log, [op |-> "host", o |-> o, off |-> off, n |-> n, v |-> r[4] % 256, how |-> Rng(2, r[5])])
           /\ UNCHANGED <<objs, maps, nextm>>
Init == /\ objs = <<>> /\ b = <<>> /\ maps = {} /\ nextm = 1 /\ log = <<>> /\ step = 0 /\ phase = "new"
Next == /\ step' = step + 1
        /\ \E r \in {Draw(step)} :
           \/ phase = "new" /\ objs' = InitObjs(r) /\ b' = InitB(objs') /\ phase' = "run" /\ UNCHANGED <<maps, nextm, log>>
           \/ phase = "run" /\ step >= MaxSteps /\ phase' = "done" /\ UNCHANGED vars
           \/ phase = "run" /\ step < MaxSteps /\ UNCHANGED phase
              /\ LET c == r[32] % 10 IN
                 CASE c < 5 -> Launch(r) [] c < 7 /\ Maps /\ Cardinality(maps) < 4 -> Map(r) [] c = 7 /\ maps # {} -> Unmap(r) [] c = 8 /\ ~Maps -> Free(r) [] c = 9 -> Host(r) [] OTHER -> Launch(r)
Emit == phase = "done" => PrintT(<<"T", ToJson([sizes |-> [i \in 1..CONST |-> objs[i].size], flags |-> [i \in 1..CONST |-> objs[i].flag], log |-> log])>>)
=============================================================================
