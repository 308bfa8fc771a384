-------------------------------- MODULE AtomGen --------------------------------
(* Random kernels of atomic operations. Item i runs the code of its class       *)
(* (i mod number of classes) iters times. An operand is a constant, to which is  *)
(* added mi * item + mt * iteration ("vary"). "prev": compare with what the      *)
(* item's operation before returned.                                            *)
EXTENDS Atom, Hsh, Json, Rnd
VARIABLES out, phase, step
NWords == 3
AllOps == <<"add", "sub", "xchg", "inc", "dec", "cmpxchg", "min", "max", "and", "or", "xor">>
(* mostly operations that give ever new values *)
MixOps == <<"add", "sub", "xchg", "xor", "add", "sub", "xchg", "xor", "cmpxchg", "cmpxchg", "add", "inc">>
(* operations that, performed by all items with slowly changing operands, are told apart by what they return *)
UniOps == <<"add", "inc", "sub", "dec", "max", "min", "or", "and", "cmpxchg", "xor">>
(* form: "one" item; "few" items, any operations; "many" items *)
Program(r) ==
  LET form == NthSeq(<<"one", "few", "many", "many">>, r[1]) n == IF r[2] % 3 = 0 THEN 8 ELSE 4 sg == r[3] % 2 = 0
      sp == IF r[4] % 3 = 0 THEN "l" ELSE "g" K(i) == H0(r[5] * 64 + i) \* a number
      lsz == IF form = "one" THEN 1 ELSE Rng(3, r[6]) grp == IF form = "one" THEN 1 ELSE IF form = "few" THEN Rng(3, r[7]) ELSE IF sp = "l" THEN 2 ELSE Between(8, 16, r[7])
      iters == IF form = "one" THEN 1 ELSE IF form = "few" THEN Rng(2, r[8]) ELSE Between(10, 60, r[8])
      nc == IF form = "one" THEN 1 ELSE Rng(4, r[9]) len(c) == IF form = "one" THEN 24 ELSE IF form = "few" THEN Rng(2, K(c)) ELSE Rng(4, K(c))
      uni == r[10] % 3 = 0                     \* all items the same
      small(h) == IF form = "many" /\ uni /\ r[12] % 10 # 9 THEN FromInt(IF r[12] % 10 \in {5, 7} THEN -(1 + (h % 3)) ELSE 1 + (h % 3), n) ELSE RandB(n, h)
      op(c, j) == LET h == Hash(r[11] + 1000 * c + j) h2 == Hash(h + 77) IN
        [o |-> IF form = "many" THEN IF uni THEN NthSeq(UniOps, r[12]) ELSE NthSeq(MixOps, h) ELSE NthSeq(AllOps, h),
         w |-> IF form = "many" THEN IF h2 % 6 = 0 THEN 2 ELSE 1 ELSE Rng(2, h2),
         \* operand of "one": around the boundaries; and what would compare equal
         a |-> IF form = "one" THEN IntOp(n, h2 \div 4, RandB(n, r[13])) ELSE RandB(n, h2), b |-> RandB(n, h2 + 5),
         prev |-> (h2 \div 8) % 3 # 0, vary |-> form # "one", mi |-> small(h2 + 9), mt |-> small(h2 + 11), drop |-> form = "one" /\ (h2 \div 64) % 4 = 0]
      look(x) == [x EXCEPT !.o = "or", !.a = Zero(n), !.vary = FALSE, !.drop = FALSE]       \* reads
      ops(c) == FoldLeft(LAMBDA x, j : LET y == op(c, j) IN IF y.o = "cmpxchg" /\ y.prev THEN x \o <<look(y), y>> ELSE Append(x, y), <<>>, Seqn(len(c)))
  IN [form |-> form, n |-> n, s |-> sg, sp |-> sp, l |-> lsz, g |-> grp, iters |-> iters, init |-> [w \in 1..NWords |-> IntOp(n, K(90 + w), RandB(n, r[14]))],
      code |-> [c \in 1..nc |-> ops(c)], thr |-> NthSeq(<<1, 2, 4, 8>>, r[15]), pad |-> 1 + (r[16] % 70)]
Init == out = <<>> /\ phase = "new" /\ step = 0
Next == step' = step + 1 /\ \E r \in {Draw(step)} : phase = "new" /\ phase' = "done" /\ out' = Program(r)
Emit == phase = "done" => PrintT(<<"T", ToJson(out)>>)
================================================================================
