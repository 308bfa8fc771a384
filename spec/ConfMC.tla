--------------------------------- MODULE ConfMC --------------------------------
(* Workers take the groups of a launch one after the other, as the runtime     *)
(* does: every group to run is run once, whatever the number of workers, and   *)
(* the counters and outputs then do not depend on who ran what when.           *)
EXTENDS Conf
CONSTANTS MaxN, MaxL, Workers
VARIABLES R, quick, pend, next, at, ran, acc
vars == <<R, quick, pend, next, at, ran, acc>>
P == <<[k |-> "lin", c |-> 3, d |-> 7], [k |-> "sh", r |-> 1], [k |-> "ato", c |-> 1], [k |-> "amx"], [k |-> "lead", a |-> 2], [k |-> "out", s |-> 1], [k |-> "ato", c |-> 2]>>
Pend(r, q) == IF q THEN IF NGroups(r) = 1 THEN <<0>> ELSE <<0, NGroups(r) - 1>> ELSE [i \in 1..NGroups(r) |-> i - 1]
Acc0 == [c |-> <<0, 0>>, mx |-> 0, o |-> <<>>]
Add(a, its) == FoldLeft(LAMBDA b, y : [c |-> <<b.c[1] + y.z.c[1], b.c[2] + y.z.c[2]>>, mx |-> IF y.z.mx > b.mx THEN y.z.mx ELSE b.mx,
                                        o |-> [g \in DOMAIN b.o \cup {y.g} |-> IF g = y.g THEN y.z.o ELSE b.o[g]]], a, its)
Init == /\ R \in [n : {<<a, b, 1>> : a \in 1..MaxN, b \in 1..2}, l : {<<a, b, 1>> : a \in 1..MaxL, b \in 1..2}] /\ R.l[1] <= R.n[1] /\ R.l[2] <= R.n[2]
        /\ quick \in BOOLEAN /\ pend = Pend(R, quick) /\ next = 1 /\ at = [w \in Workers |-> 0] /\ ran = <<>> /\ acc = Acc0
(* at[w]: 0 idle, k + 1 running the k-th group taken, -1 finished *)
Take(w) == at[w] = 0 /\ next' = next + 1 /\ at' = [at EXCEPT ![w] = IF next <= Len(pend) THEN next ELSE -1] /\ UNCHANGED <<R, quick, pend, ran, acc>>
Finish(w) == at[w] > 0 /\ ran' = Append(ran, pend[at[w]]) /\ acc' = TLCEval(Add(acc, RunGroup(P, R, pend[at[w]]))) /\ at' = [at EXCEPT ![w] = 0] /\ UNCHANGED <<R, quick, pend, next>>
Next == \E w \in Workers : Take(w) \/ Finish(w)
AllDone == \A w \in Workers : at[w] = -1
Want == Launch(P, R, quick)
Exact == \A i, j \in 1..Len(ran) : i # j => ran[i] # ran[j]
Complete == AllDone => /\ {ran[i] : i \in 1..Len(ran)} = Executed(R, quick)
                       /\ acc.c = Want.c /\ acc.mx = Want.mx
                       /\ \A i \in 1..Len(Want.items) : acc.o[Want.items[i].g] = Want.items[i].o
                       /\ Cardinality(DOMAIN acc.o) = Len(Want.items)
================================================================================
