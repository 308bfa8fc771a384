--------------------------------- MODULE LogMC ---------------------------------
(* The logger as threads use it: a message is counted and written under a lock, *)
(* in separate steps. Whatever the interleaving, the log is what Log describes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Per, MaxMax
VARIABLES max, lock, pc, left, n, log
vars == <<max, lock, pc, left, n, log>>
Init == /\ max \in 0..MaxMax /\ lock = 0 /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Per] /\ n = 0 /\ log = <<>>
Set(t, p) == pc' = [pc EXCEPT ![t] = p]
Take(t) == pc[t] = "idle" /\ left[t] > 0 /\ lock = 0 /\ lock' = t /\ Set(t, "check") /\ UNCHANGED <<max, left, n, log>>
Check(t) == pc[t] = "check" /\ log' = (IF n = max THEN Append(log, <<0, n>>) ELSE log) /\ Set(t, "count") /\ UNCHANGED <<max, lock, left, n>>
CountIt(t) == pc[t] = "count" /\ n' = n + 1 /\ Set(t, IF n >= max THEN "release" ELSE "write1") /\ UNCHANGED <<max, lock, left, log>>
(* a message is written in two pieces *)
Write(t, a, b) == pc[t] = a /\ log' = Append(log, <<t, left[t], a>>) /\ Set(t, b) /\ UNCHANGED <<max, lock, left, n>>
Release(t) == pc[t] = "release" /\ lock' = 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ Set(t, "idle") /\ UNCHANGED <<max, n, log>>
Next == \E t \in Threads : Take(t) \/ Check(t) \/ CountIt(t) \/ Write(t, "write1", "write2") \/ Write(t, "write2", "release") \/ Release(t)
Total == Per * Cardinality(Threads)
Quiet == \A t \in Threads : pc[t] = "idle"
Msgs == SelectSeq(log, LAMBDA x : x[1] # 0)
Notices == SelectSeq(log, LAMBDA x : x[1] = 0)
Raised == Total - (LET S == {<<t, k>> : t \in Threads, k \in 1..Per} IN Cardinality({s \in S : s[2] <= left[s[1]]}))
Min2(a, b) == IF a < b THEN a ELSE b
Intact == \A i \in 1..Len(log) : log[i][1] # 0 /\ log[i][3] = "write1" => (i = Len(log) \/ log[i + 1] = <<log[i][1], log[i][2], "write2">>)
Ordered == \A i, j \in 1..Len(Msgs) : i < j /\ Msgs[i][1] = Msgs[j][1] => Msgs[i][2] >= Msgs[j][2]
Once == \A i, j \in 1..Len(log) : i # j => log[i] # log[j]
Limit == Len(Msgs) <= 2 * max
Complete == Quiet => /\ Len(Msgs) = 2 * Min2(Raised, max) /\ n = Raised
                     /\ IF Raised > max THEN Notices = <<<<0, max>>>> /\ log[Len(log)] = <<0, max>> ELSE Notices = <<>>
================================================================================
