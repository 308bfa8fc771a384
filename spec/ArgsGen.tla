------------------------------- MODULE ArgsGen -------------------------------
EXTENDS Args, Rnd, Json
CONSTANT MaxOps
VARIABLES h, step, phase, gone     \* gone: kernel objects released by the application
gvars == <<avars, h, gone>>
Skip == UNCHANGED gvars
Log(r) == h' = Append(h, r)
Usable == Kerns \ gone
(* values: one integer per component *)
Small(k) == (k % 200) - 100
Value(p, r, n) == CASE p = "o" -> <<Rng(3, r[n])>>
                    [] p = "c" -> <<(r[n] % 256) - 128>>
                    [] p = "s" -> <<(r[n] % 65536) - 32768>>
                    [] p = "i" -> <<IF r[n] % 5 = 0 THEN 2147483647 - (r[n + 1] % 3) ELSE (r[n] - 50000) * 20011>>
                    [] p = "l" -> <<(r[n] - 50000) * 20011, (r[n + 1] - 50000) * 20011>>   \* high, low half
                    [] p = "v" -> <<Small(r[n]), Small(r[n + 1]), Small(r[n + 2])>>
                    [] p = "t" -> <<Small(r[n]), Small(r[n + 1])>>
                    [] p = "u" -> <<r[n] % 256, r[n + 1] % 256>>
                    [] p \in {"g", "k"} -> <<r[n] % 6>>        \* 0: null pointer; 1-3 buffers, 4-5 sub-buffers
                    [] p = "m" -> <<Rng(40, r[n])>>
                    [] p = "p" -> <<Rng(3, r[n])>>
Bad == <<"index", "small", "big", "null", "zero", "unset">>
Step(r) ==
  LET p == r[1] % 100
  IN IF Usable = {} \/ (p < 6 /\ Len(kern) < 6)
     THEN LET t == NthSeq(<<"A", "A", "B", "C">>, r[2]) IN Make(t) /\ Log([o |-> "make", t |-> t, k |-> Len(kern) + 1]) /\ UNCHANGED gone
     ELSE LET k == Nth(Usable, r[2])
              P == Params(kern[k].t)
              unset == {i \in 1..Len(P) : kern[k].a[i] = <<>>}
              i == IF unset # {} /\ r[3] % 4 > 0 THEN Nth(unset, r[4]) ELSE Rng(Len(P), r[4])
          IN IF p < 10 /\ Len(kern) < 8 THEN Clone(k) /\ Log([o |-> "clone", k |-> k, n |-> Len(kern) + 1]) /\ UNCHANGED gone
             ELSE IF p < 55 THEN LET v0 == Value(P[i], r, 6) old == kern[k].a[i]
                                    \* also values that differ from the current one in one component only, or not at all
                                    v == IF Len(v0) > 1 /\ Len(old) = Len(v0) /\ r[12] % 2 = 0 THEN [old EXCEPT ![Rng(Len(v0), r[13])] = v0[Rng(Len(v0), r[13])]] ELSE v0 IN SetArg(k, i, v) /\ Log([o |-> "set", k |-> k, i |-> i, p |-> P[i], v |-> v, r |-> 0]) /\ UNCHANGED gone
             ELSE IF p < 63 THEN   \* calls that must be rejected and change nothing
                  LET b == NthSeq(<<"index", "small", "big", "null">>, r[5])
                      e == CASE b = "index" -> -49 [] b \in {"small", "big"} -> -51
                             [] P[i] = "m" -> -51     \* local memory of size 0
                             [] P[i] \in {"o", "g", "k", "p"} -> 0 [] OTHER -> -50
                  IN IF (b = "null" /\ e = 0) \/ (b \in {"small", "big"} /\ P[i] = "m") THEN Skip
                     ELSE Reject /\ Log([o |-> "bad", k |-> k, i |-> i, p |-> P[i], b |-> b, r |-> e]) /\ UNCHANGED gone
             ELSE IF p < 84 THEN IF Ready(k) THEN Launch(k) /\ Log([o |-> "launch", k |-> k, r |-> 0]) /\ UNCHANGED gone
                                 ELSE Reject /\ Log([o |-> "launch", k |-> k, r |-> -52]) /\ UNCHANGED gone
             ELSE IF p < 90 THEN Drain /\ Log([o |-> "drain"]) /\ UNCHANGED gone
             ELSE IF p < 93 THEN UNCHANGED avars /\ Log([o |-> "release", k |-> k]) /\ gone' = gone \cup {k}
             ELSE LET M == {j \in 1..Len(P) : P[j] = "m"} s == {j \in M : kern[k].a[j] # <<>>} IN
                  IF M = {} \/ s # M THEN Skip
                  ELSE UNCHANGED <<avars, gone>> /\ Log([o |-> "local", k |-> k, n |-> kern[k].a[CHOOSE j \in M : TRUE][1]])
Init == AInit /\ h = <<>> /\ step = 0 /\ phase = "run" /\ gone = {}
Next == /\ step' = step + 1
        /\ \E r \in {Draw(step)} :
           \/ phase = "run" /\ Len(h) < MaxOps /\ Step(r) /\ UNCHANGED phase
           \/ phase = "run" /\ Len(h) >= MaxOps /\ Drain /\ Log([o |-> "drain"]) /\ phase' = "done" /\ UNCHANGED gone
(* what each output buffer holds at the end: the reports written to it, in order *)
Out(b) == LET S == SelectSeq(ran, LAMBDA x : x.a[1][1] = b) IN [i \in 1..Len(S) |-> [t |-> S[i].t, a |-> S[i].a]]
Emit == phase = "done" => PrintT(<<"T", ToJson([ops |-> h, out |-> <<Out(1), Out(2), Out(3)>>])>>)
=============================================================================
