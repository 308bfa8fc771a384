------------------------------ MODULE LocalsGen ------------------------------
(* Random programs of several kernels, whose names may begin like one another. *)
EXTENDS Locals, Rnd, Json
VARIABLES ks, used, step, phase
Names == <<"f", "fo", "foo", "f_o", "g", "gf", "k1", "k11", "k">>
Types == SetToSeq(DOMAIN Prim)
Var(r, a) ==
  LET struct == r[a] % 4 = 0 n == IF struct THEN 1 + (r[a + 1] % 4) ELSE 1
      ty == [i \in 1..n |-> Types[1 + (((r[a + 2] \div (i * i)) + i * r[a + 1]) % Len(Types))]]
      dims == CASE r[a + 3] % 4 = 0 -> <<>> [] r[a + 3] % 4 = 1 -> <<Rng(3, r[a + 3] \div 4), Rng(4, r[a + 2])>> [] OTHER -> <<Rng(7, r[a + 3] \div 4)>>
  IN [ty |-> ty, dims |-> dims]
Kernel(r, nm) == [name |-> nm, vars |-> [i \in 1..(r[1] % 6) |-> Var(r, 4 * i)], args |-> [i \in 1..(r[2] % 4) |-> Rng(40, r[26 + i] \div 3) * NthSeq(<<1, 2, 4, 8, 16>>, r[26 + i])],
                  pre |-> [i \in 1..(r[2] % 4) |-> IF r[22 + (i % 2)] % 3 = 0 THEN 0 ELSE Rng(300, r[26 + i] * 7 + r[23])],       \* sizes the arguments are given before, 0: none
                  priv |-> 1 + (r[3] % 6), groups |-> 1 + (r[30] % 6), items |-> Rng(5, r[31]), thr |-> NthSeq(<<1, 2, 4, 8>>, r[32])]
Init == ks = <<>> /\ used = {} /\ step = 0 /\ phase = "run"
Next == /\ step' = step + 1
        /\ \E r \in {Draw(step)} :
           \/ phase = "run" /\ step < 12 /\ Len(ks) < 5 /\ (Len(ks) < 1 \/ r[25] % 5 # 0) /\ UNCHANGED phase
              /\ LET nm == NthSeq(Names, r[24]) IN
                 IF nm \in used THEN UNCHANGED <<ks, used>> ELSE ks' = Append(ks, Kernel(r, nm)) /\ used' = used \cup {nm}
           \/ phase = "run" /\ (step >= 12 \/ Len(ks) >= 5 \/ (Len(ks) >= 1 /\ r[25] % 5 = 0)) /\ phase' = "done" /\ UNCHANGED <<ks, used>>
Emit == phase = "done" => PrintT(<<"T", ToJson([ks |-> ks])>>)
=============================================================================
