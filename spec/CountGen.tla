-------------------------------- MODULE CountGen -------------------------------
(* Random programs of two kernels sharing functions, and runs of these.        *)
EXTENDS Count, Rnd, Json
CONSTANTS MaxRuns
VARIABLES prog, runs, phase, step
HH(x) == ((x % 32749) * 65003 + (x \div 32749) * 31 + 12345) % 1000003
Hash(x) == TLCEval(HH(HH(HH(x))))
Kid(h, i) == Hash(h * 37 + i)
Atomics == <<"_Z10atomic_addPU3AS1Vjj", "_Z10atomic_incPU3AS1Vj", "_Z11atomic_xchgPU3AS1Vjj", "_Z10atomic_addPU3AS3Vjj", "_Z10atomic_decPU3AS3Vj", "_Z10atomic_maxPU3AS1Vii">>
NF == 4
Mem(h) == LET sp == NthSeq(<<"global", "local", "constant", "global", "local">>, h) IN
          [k |-> "mem", o |-> IF sp # "constant" /\ (h \div 5) % 2 = 0 THEN "store" ELSE "load", sp |-> sp, w |-> NthSeq(<<1, 2, 4, 8, 16>>, h \div 10)]
RECURSIVE Code(_, _, _, _)
(* d: depth; f: functions with smaller numbers may be called *)
Stmt(h, d, f, bar) ==
  LET k == h % 10 m == h \div 10 IN
  IF k < 4 \/ (k > 6 /\ d = 0) THEN Mem(m)
  ELSE IF k < 6 /\ f > 1 THEN [k |-> "call", f |-> Rng(f - 1, m)]
  ELSE IF k = 6 THEN IF bar /\ m % 2 = 0 THEN [k |-> "bar"] ELSE [k |-> "at", f |-> NthSeq(Atomics, m)]
  ELSE IF k < 8 /\ d > 0 THEN [k |-> "for", n |-> (m % 4), m |-> 1 + ((m \div 4) % 3), b |-> Code(Kid(h, 1), d - 1, f, FALSE)]
  ELSE IF d > 0 THEN [k |-> "if", by |-> IF m % 2 = 0 THEN "item" ELSE "group", m |-> Between(2, 4, m \div 2), c |-> (m \div 6) % 2, t |-> Code(Kid(h, 1), d - 1, f, FALSE), e |-> Code(Kid(h, 2), d - 1, f, FALSE)]
  ELSE Mem(m)
Code(h, d, f, bar) == LET n == IF d = 3 THEN 5 ELSE Between(0, 3, Kid(h, 9)) IN [i \in 1..n |-> Stmt(Kid(h, 10 + i), d, f, bar)]
(* Functions and kernels store what they loaded, so that no load is dead. *)
Program(r) == [fns |-> [f \in 1..NF |-> <<[k |-> "mem", o |-> "store", sp |-> "global", w |-> 4]>> \o Code(Hash(r[1] + 1000 * f), 1, f, FALSE)], kernels |-> [k \in 1..2 |-> Code(Hash(r[2] + 5000 * k), 3, NF + 1, TRUE) \o <<[k |-> "mem", o |-> "store", sp |-> "global", w |-> 4]>>]]
Lit(h) == {<<x, h[x][1], h[x][2]>> : x \in DOMAIN h}
RunOf(p, r) == LET l == Rng(4, r[1]) n == l * Rng(8, r[2]) k == Rng(2, r[3]) IN
               [k |-> k, n |-> n, l |-> l, thr |-> NthSeq(<<1, 2, 4, 8>>, r[4]),
                \* work-items the debugger switches to, before it lets the kernel continue
                dbg |-> IF r[5] % 16 = 0 THEN [i \in 1..Rng(4, r[6]) |-> r[6 + i] % n] ELSE <<>>, h |-> SetToSeq(Lit(Total(p.kernels[k], n, l, p.fns)))]
Init == prog = 0 /\ runs = <<>> /\ phase = "new" /\ step = 0
Next == step' = step + 1 /\ \E r \in {Draw(step)} :
          \/ phase = "new" /\ prog' = TLCEval(Program(r)) /\ phase' = "run" /\ UNCHANGED runs
          \/ phase = "run" /\ Len(runs) < MaxRuns /\ runs' = Append(runs, RunOf(prog, r)) /\ UNCHANGED <<prog, phase>>
          \/ phase = "run" /\ Len(runs) = MaxRuns /\ phase' = "done" /\ UNCHANGED <<prog, runs>>
Emit == phase = "done" => PrintT(<<"T", ToJson([prog |-> prog, runs |-> runs])>>)
================================================================================
