-------------------------------- MODULE ArgsMC --------------------------------
(* Exhaustive: each executed kernel reports what a history variable says was *)
(* set last before its enqueue, whatever happened afterwards.                *)
EXTENDS Args
CONSTANTS MaxK, MaxSteps
VARIABLES hist   \* sequence of <<"set", k, i, v>>, <<"launch", k>>, <<"clone", k>>, <<"make">>
vars == <<avars, hist>>
Small == 1..2    \* slots and values used
Ready2(k) == \A i \in Small : kern[k].a[i] # <<>>
Init == AInit /\ hist = <<>>
Next == /\ Len(hist) < MaxSteps
        /\ \/ Len(kern) < MaxK /\ Make("B") /\ hist' = Append(hist, <<"make">>)
           \/ \E k \in Kerns : \/ Len(kern) < MaxK /\ Clone(k) /\ hist' = Append(hist, <<"clone", k>>)
                               \/ \E i, v \in Small : SetArg(k, i, <<v>>) /\ hist' = Append(hist, <<"set", k, i, v>>)
                               \/ Ready2(k) /\ fifo' = Append(fifo, kern[k]) /\ UNCHANGED <<kern, ran>> /\ hist' = Append(hist, <<"launch", k>>)
           \/ fifo # <<>> /\ Drain /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
(* kernel object made by the n-th make/clone *)
RECURSIVE ObjOf(_, _)
ObjOf(j, n) == IF j = 0 THEN n ELSE ObjOf(j - 1, n + IF hist[j][1] \in {"make", "clone"} THEN 1 ELSE 0)
(* value of slot i of kernel k just before history position j *)
RECURSIVE Value(_, _, _)
Value(k, i, j) == IF j = 0 THEN <<>>
                  ELSE LET e == hist[j] IN
                       IF e[1] = "set" /\ e[2] = k /\ e[3] = i THEN <<e[4]>>
                       ELSE IF e[1] = "clone" /\ ObjOf(j, 0) = k THEN Value(e[2], i, j - 1)
                       ELSE Value(k, i, j - 1)
Launches == SelectSeq([j \in 1..Len(hist) |-> IF hist[j][1] = "launch" THEN j ELSE 0], LAMBDA x : x > 0)
Faithful == LET S == ran \o fifo IN
            /\ Len(S) = Len(Launches)
            /\ \A n \in 1..Len(S) : \A i \in Small : S[n].a[i] = Value(hist[Launches[n]][2], i, Launches[n] - 1)
=============================================================================
