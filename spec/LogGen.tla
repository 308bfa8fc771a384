--------------------------------- MODULE LogGen --------------------------------
(* Random programs that raise diagnostics, launches of them in one or two      *)
(* contexts, limits and destinations.                                          *)
EXTENDS Log, Rnd, Json
CONSTANTS MaxRuns
VARIABLES sc, runs, phase, step
HH(x) == ((x % 32749) * 65003 + (x \div 32749) * 31 + 12345) % 1000003
Hash(x) == TLCEval(HH(HH(HH(x))))
Kid(h, i) == Hash(h * 37 + i)
Stmt(h) == LET n == NthSeq(<<0, 1, 0, 1, 2>>, h \div 11) m == NthSeq(<<1, 2, 3, 5, 4>>, h \div 55) k == h % 11 IN
  CASE k < 6 -> [k |-> "acc", o |-> IF k % 2 = 0 THEN "read" ELSE "write", sp |-> IF k < 4 THEN "global" ELSE "local", w |-> NthSeq(<<1, 2, 4, 8>>, h \div 300), n |-> n, m |-> m]
    [] k = 6 -> [k |-> "ro", n |-> n, m |-> m]
    [] k = 7 -> [k |-> "wo", n |-> n, m |-> m]
    [] OTHER -> [k |-> "un", n |-> n, m |-> m]
Program(h) == [s \in 1..Between(1, 5, Kid(h, 1)) |-> Stmt(Kid(h, 10 + s))]
MaxOf(r) == NthSeq(<<-1, 0, 1, 2, 3, 7, 20, 60, 200, 999, -1, 5>>, r)
Script(r) == [progs |-> [k \in 1..2 |-> Program(Hash(r[k] + 7777 * k))], max |-> MaxOf(r[3]), dest |-> NthSeq(<<"file", "stderr", "file", "bad", "file">>, r[4]),
              cli |-> Chance(40, r[5]), un |-> Chance(40, r[6]), opt |-> NthSeq(<<"", "-O0", "-cl-opt-disable", "-O2", "-cl-std=CL2.0">>, r[7]), old |-> Chance(50, r[8]),
              ctx |-> NthSeq(<<"one", "two", "successive", "one">>, r[9])]
Size(r) == IF Chance(12, r[1]) THEN <<Between(1, 8, r[2]), Between(8, 40, r[3]), Between(1, 1, r[4])>>
           ELSE NthSeq(<<<<Between(1, 20, r[2]), 1, 1>>, <<Between(1, 6, r[2]), Between(1, 5, r[3]), 1>>, <<Between(1, 4, r[2]), Between(1, 3, r[3]), Between(1, 3, r[4])>>>>, r[5])
Divs(n) == {d \in 1..n : n % d = 0}
RunOf(r) == LET n == Size(r) IN
  [p |-> Rng(2, r[10]), c |-> Rng(2, r[11]), thr |-> NthSeq(<<1, 2, 4, 8>>, r[12]), perturb |-> Chance(50, r[13]),
   L |-> [n |-> n, l |-> [d \in 1..3 |-> Nth(Divs(n[d]), r[13 + d])], off |-> IF Chance(30, r[17]) THEN <<r[18] % 9, (IF n[2] * n[3] = 1 THEN 0 ELSE r[19] % 5), (IF n[3] = 1 THEN 0 ELSE r[20] % 4)>> ELSE <<0, 0, 0>>]]
GInit == LInit /\ sc = 0 /\ runs = <<>> /\ phase = "new" /\ step = 0
GNext == step' = step + 1 /\ UNCHANGED lvars /\ \E r \in {Draw(step)} :
          \/ phase = "new" /\ sc' = TLCEval(Script(r)) /\ phase' = "run" /\ UNCHANGED runs
          \/ phase = "run" /\ Len(runs) < MaxRuns /\ runs' = Append(runs, TLCEval(RunOf(r))) /\ UNCHANGED <<sc, phase>>
          \/ phase = "run" /\ Len(runs) = MaxRuns /\ phase' = "done" /\ UNCHANGED <<sc, runs>>
Emit == phase = "done" => PrintT(<<"T", ToJson([sc |-> sc, runs |-> runs])>>)
================================================================================
