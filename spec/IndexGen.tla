------------------------------- MODULE IndexGen ------------------------------
(* Random subscripts of random arrays in every memory.                          *)
EXTENDS Index, Rnd, Json
VARIABLES out, step
Ix(d, k, j) == IF k % 5 = 0 THEN d[j] + ((k \div 5) % 3) ELSE IF k % 23 = 1 THEN 0 - (1 + ((k \div 23) % 2)) ELSE (k \div 5) % d[j]
One(r) ==
  LET d == [j \in 1..Rng(3, r[1]) |-> Rng(4, r[1 + j])]
      ix == [j \in 1..Len(d) |-> Ix(d, r[5 + j], j)]
      c == r[9] % 4 = 0
  IN [d |-> d, ix |-> ix, sp |-> NthSeq(<<"p", "p", "l", "g">>, r[10]), st |-> r[11] % 2 = 0, cst |-> c, opt |-> ~c /\ r[12] % 2 = 0, bad |-> SetToSeq(BadIndices(d, ix)), out |-> Out(d, ix), word |-> Word(d, ix), words |-> Words(d)]
Init == out = <<>> /\ step = 0
Next == step <= 12 /\ step' = step + 1 /\ \E r \in {Draw(step)} : out' = IF step = 12 THEN out ELSE Append(out, One(r))
Emit == step = 13 => PrintT(<<"T", ToJson([ks |-> out])>>)
=============================================================================
