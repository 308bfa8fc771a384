------------------------------- MODULE LocalsMC ------------------------------
(* The layout rule, for every struct of up to four members.                   *)
EXTENDS Locals
VARIABLE fs
Init == fs = <<>>
Next == Len(fs) < 4 /\ \E t \in DOMAIN Prim : fs' = Append(fs, t)
O == Offsets(fs).offs
Layout == fs # <<>> =>
  /\ \A i \in 1..Len(fs) : O[i] % Prim[fs[i]] = 0 /\ O[i] + Prim[fs[i]] <= SizeOfType(fs)
  /\ \A i, j \in 1..Len(fs) : i < j => O[i] + Prim[fs[i]] <= O[j]
  /\ SizeOfType(fs) % AlignOf(fs) = 0
  (* no member could start earlier, and the struct could not be shorter *)
  /\ \A i \in 2..Len(fs) : O[i] - (O[i - 1] + Prim[fs[i - 1]]) < Prim[fs[i]]
  /\ SizeOfType(fs) - (O[Len(fs)] + Prim[fs[Len(fs)]]) < AlignOf(fs)
=============================================================================
