-------------------------------- MODULE Locals -------------------------------
(* Local variables and local arguments of kernels: sizes, alignment, places.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Scalar == [char |-> 1, short |-> 2, int |-> 4, long |-> 8, float |-> 4]
(* vectors: three components take the room of four *)
Vector == [char3 |-> 4, short2 |-> 4, int3 |-> 16, float4 |-> 16, long2 |-> 16, char16 |-> 16, long4 |-> 32]
Prim == [t \in DOMAIN Scalar \cup DOMAIN Vector |-> IF t \in DOMAIN Scalar THEN Scalar[t] ELSE Vector[t]]
Up(n, a) == ((n + a - 1) \div a) * a
(* a struct is a sequence of primitive types, in order, each aligned to its size *)
Offsets(fs) == FoldLeft(LAMBDA acc, f : LET o == Up(acc.at, Prim[f]) IN [offs |-> Append(acc.offs, o), at |-> o + Prim[f]], [offs |-> <<>>, at |-> 0], fs)
AlignOf(fs) == FoldLeft(LAMBDA a, f : IF Prim[f] > a THEN Prim[f] ELSE a, 1, fs)
SizeOfType(fs) == Up(Offsets(fs).at, AlignOf(fs))
Product(d) == FoldLeft(LAMBDA a, x : a * x, 1, d)
(* a variable: [ty, dims]; ty a sequence of primitives (one of them: not a struct) *)
SizeOfVar(v) == SizeOfType(v.ty) * Product(v.dims)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
(* ---- a recorded execution of a kernel ----                                 *)
(* t.k: [vars, args]; t.lms: the local memory size the kernel reports, t.lms0 *)
(* before its arguments were set; t.groups: what each group reported: the     *)
(* size of every variable, where variables and arguments are (<<hi, lo>>),    *)
(* and counts of bytes that did not hold what the group or item stored        *)
Sizes(k) == [i \in 1..(Len(k.vars) + Len(k.args)) |-> IF i <= Len(k.vars) THEN SizeOfVar(k.vars[i]) ELSE k.args[i - Len(k.vars)]]
Apart(a, m, b, n) == a[1] # b[1] \/ a[2] + m <= b[2] \/ b[2] + n <= a[2]
GoodGroup(k, g) ==
  \E z \in {Sizes(k)} :
  /\ g.bad = 0
  /\ \A i \in 1..Len(k.vars) : g.sz[i] = z[i] /\ g.addr[i][2] % AlignOf(k.vars[i].ty) = 0
  /\ \A i, j \in 1..Len(z) : i < j => Apart(g.addr[i], z[i], g.addr[j], z[j])
Good(t) == /\ t.msgs = 0
           /\ t.lms0 = Sum([i \in 1..Len(t.k.vars) |-> SizeOfVar(t.k.vars[i])])
           /\ t.lms = Sum(Sizes(t.k))
           /\ \A g \in 1..Len(t.groups) : GoodGroup(t.k, t.groups[g])
=============================================================================
