--------------------------------- MODULE ConfGen -------------------------------
(* Random race-free kernels, launches and the configurations to run them in.   *)
EXTENDS Conf, Rnd, Json
CONSTANTS MaxRuns
VARIABLES prog, ok20, runs, phase, step
HH(x) == ((x % 32749) * 65003 + (x \div 32749) * 31 + 12345) % 1000003
Hash(x) == TLCEval(HH(HH(HH(x))))
Kid(h, i) == Hash(h * 37 + i)
RECURSIVE Alone(_, _)
Blk(h, d, m) == [i \in 1..Between(1, m, Kid(h, 9)) |-> Alone(Kid(h, 10 + i), d)]
Alone(h, d) == LET k == h % 17 m == h \div 17 IN
  CASE k = 0 -> [k |-> "lin", c |-> Rng(999, m), d |-> m % 5000]
    [] k = 1 -> [k |-> "in", a |-> Rng(63, m)]
    [] k = 2 -> [k |-> "con", a |-> Rng(63, m)]
    [] k = 3 -> [k |-> "ato", c |-> Rng(2, m)]
    [] k = 4 -> [k |-> "amx"]
    [] k = 5 -> [k |-> "amn"]
    [] k \in {6, 7} -> [k |-> "out", s |-> Rng(Slots, m)]
    [] k = 8 -> [k |-> "slot", a |-> m % 1000]
    [] k = 9 -> [k |-> "pr", s |-> m % 100]
    [] k = 10 -> [k |-> "arr", a |-> Rng(50, m)]
    [] k = 11 -> [k |-> "vec", a |-> m % 1000]
    [] k = 12 -> [k |-> "call", a |-> m % 1000]
    [] k = 13 -> [k |-> "str", a |-> m % 1000]
    [] k = 14 -> [k |-> "ptr", a |-> m % 1000]
    [] k = 15 /\ d > 0 -> [k |-> "if", m |-> Between(2, 4, m), c |-> (m \div 3) % 2, t |-> Blk(Kid(h, 1), d - 1, 3), e |-> Blk(Kid(h, 2), d - 1, 3)]
    [] k = 16 /\ d > 0 -> [k |-> "for", n |-> m % 3, m |-> Between(1, 4, m \div 3), b |-> Blk(Kid(h, 1), d - 1, 3)]
    [] OTHER -> [k |-> "lin", c |-> Rng(99, m), d |-> 1]
Top(h) == LET k == h % 8 m == h \div 8 IN
  CASE k = 0 -> [k |-> "sh", r |-> m % 9]
    [] k = 1 -> [k |-> "gcp", a |-> m % 56]
    [] k = 2 -> [k |-> "lead", a |-> m % 100]
    [] OTHER -> Alone(Kid(h, 3), 2)
Program(h) == [i \in 1..Between(3, 9, Kid(h, 1)) |-> Top(Kid(h, 10 + i))] \o <<[k |-> "out", s |-> 1]>>
Size(r) == NthSeq(<<<<Between(1, 24, r[2]), 1, 1>>, <<Between(1, 6, r[2]), Between(1, 5, r[3]), 1>>, <<Between(1, 3, r[2]), Between(1, 3, r[3]), Between(1, 3, r[4])>>>>, r[5])
Divs(n) == {d \in 1..n : n % d = 0}
Config(r, a) == [thr |-> NthSeq(<<1, 2, 3, 4, 8, 8>>, r[a]), races |-> r[a + 1] % 2 = 0, uninit |-> (r[a + 1] \div 2) % 2 = 0, counts |-> (r[a + 1] \div 4) % 3 = 0, uniform |-> (r[a + 1] \div 12) % 4 = 0,
                 opt |-> NthSeq(<<"", "-O0", "-O1", "-O2", "-O3", "-cl-opt-disable", "-cl-mad-enable", "-cl-fast-relaxed-math -O2">>, r[a + 2]), perturb |-> (r[a + 2] \div 8) % 2 = 0,
                 api |-> (r[a + 2] \div 16) % 3 = 0, extra |-> (r[a + 2] \div 48) % 3 = 0]
RunOf(r) == LET n == Size(r) quick == Chance(35, r[6])
                R == [n |-> n, l |-> IF ok20 /\ r[7] % 2 = 0 THEN [d \in 1..3 |-> Rng(n[d], r[13 + d])] ELSE [d \in 1..3 |-> Nth(Divs(n[d]), r[13 + d])]] IN
  [R |-> R, quick |-> quick, want |-> Launch(prog, R, quick), dim |-> IF n[3] > 1 THEN 3 ELSE IF n[2] > 1 THEN 2 ELSE Rng(3, r[8]), conf |-> <<Config(r, 20), Config(r, 24)>>]
Init == prog = 0 /\ ok20 = FALSE /\ runs = <<>> /\ phase = "new" /\ step = 0
Next == step' = step + 1 /\ \E r \in {Draw(step)} :
          \/ phase = "new" /\ prog' = TLCEval(Program(Hash(r[1]))) /\ ok20' = Chance(30, r[2]) /\ phase' = "run" /\ UNCHANGED runs
          \/ phase = "run" /\ Len(runs) < MaxRuns /\ runs' = Append(runs, TLCEval(RunOf(r))) /\ UNCHANGED <<prog, ok20, phase>>
          \/ phase = "run" /\ Len(runs) = MaxRuns /\ phase' = "done" /\ UNCHANGED <<prog, ok20, runs>>
Emit == phase = "done" => PrintT(<<"T", ToJson([prog |-> prog, std20 |-> ok20, runs |-> runs])>>)
================================================================================
