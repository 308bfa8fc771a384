----------------------------- MODULE NDRangeGen ------------------------------
(* Random launches: sizes, offsets, kernels, threads.                         *)
EXTENDS NDRange, Rnd, Json
CONSTANTS MaxItems
VARIABLES phase, out
Draft(r) ==
  LET dim == Rng(3, r[1])
      l == [d \in 1..3 |-> IF d > dim THEN 1 ELSE NthSeq(<<1, 2, 3, 4, 5, 8>>, r[1 + d])]
      k == [d \in 1..3 |-> IF d > dim THEN 1 ELSE NthSeq(<<1, 1, 2, 3, 4, 7>>, r[4 + d])]
      uni == r[8] % 2 = 0                                      \* a kernel that requires uniform groups
      g == [d \in 1..3 |-> IF d > dim THEN 1 ELSE IF uni THEN l[d] * k[d] ELSE l[d] * (k[d] - 1) + Rng(l[d], r[8 + d])]
      g0 == IF r[12] % 25 = 0 THEN [g EXCEPT ![Rng(dim, r[13])] = 0] ELSE g
      o == [d \in 1..3 |-> IF d > dim \/ r[14] % 2 = 0 THEN 0 ELSE r[14 + d] % 20]
  IN [dim |-> dim, g |-> g0, l |-> l, o |-> o, uni |-> uni, nullo |-> o = <<0, 0, 0>> /\ r[18] % 2 = 0,
      nulll |-> r[19] % 8 = 0,                                 \* let the runtime choose the work-group size
      bar |-> r[20] % 3 = 0,                                   \* a kernel with barriers
      thr |-> NthSeq(<<1, 2, 3, 4, 8, 16>>, r[21]), seed |-> r[22]]
Total(x) == x.g[1] * x.g[2] * x.g[3]
Init == phase = 0 /\ out = <<>> /\ NInit(<<>>)
Next == /\ phase < 40 /\ UNCHANGED nvars
        /\ \E r \in {Draw(phase)} : LET x == Draft(r) IN IF Total(x) <= MaxItems /\ x.l[1] * x.l[2] * x.l[3] <= 64 THEN out' = <<x>> /\ phase' = 100 ELSE out' = <<>> /\ phase' = phase + 1
Emit == phase = 100 => PrintT(<<"T", ToJson(out[1])>>)
=============================================================================
