-------------------------------- MODULE CountMC --------------------------------
(* Counting with worker threads: a thread counts the operations of the groups  *)
(* it executes in counters of its own, in which functions are numbered in the  *)
(* order in which they are first called, adds them to the run's counters under *)
(* a lock when a group is complete, and clears them; a second run starts       *)
(* afresh. A thread may leave a group for another one and come back to it (as  *)
(* the debugger does).                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Threads, Groups, Fns, Len_
VARIABLES calls, next, grp, susp, todo, cnt, fn, gcnt, gfn, done, run
vars == <<calls, next, grp, susp, todo, cnt, fn, gcnt, gfn, done, run>>
Idx(f, x) == CHOOSE i \in 1..Len(f) : f[i] = x
Has(f, x) == \E i \in 1..Len(f) : f[i] = x
Init == /\ calls \in [1..2 -> [1..Groups -> UNION {[1..n -> Fns] : n \in 0..Len_}]] /\ next = 1 /\ grp = [t \in Threads |-> 0] /\ susp = [t \in Threads |-> {}]
        /\ todo = calls[1] /\ cnt = [t \in Threads |-> <<>>] /\ fn = [t \in Threads |-> <<>>] /\ gcnt = <<>> /\ gfn = <<>> /\ done = {} /\ run = 1
Leave(t) == susp[t] \cup (IF grp[t] = 0 THEN {} ELSE {grp[t]})
Begin(t) == next <= Groups /\ grp' = [grp EXCEPT ![t] = next] /\ next' = next + 1 /\ susp' = [susp EXCEPT ![t] = Leave(t)] /\ UNCHANGED <<calls, todo, cnt, fn, gcnt, gfn, done, run>>
Resume(t) == \E g \in susp[t] : grp' = [grp EXCEPT ![t] = g] /\ susp' = [susp EXCEPT ![t] = Leave(t) \ {g}] /\ UNCHANGED <<calls, next, todo, cnt, fn, gcnt, gfn, done, run>>
Call(t) == grp[t] # 0 /\ todo[grp[t]] # <<>> /\ LET x == Head(todo[grp[t]]) IN
           /\ IF Has(fn[t], x) THEN fn' = fn /\ cnt' = [cnt EXCEPT ![t][Idx(fn[t], x)] = @ + 1]
              ELSE fn' = [fn EXCEPT ![t] = Append(@, x)] /\ cnt' = [cnt EXCEPT ![t] = Append(@, 1)]
           /\ todo' = [todo EXCEPT ![grp[t]] = Tail(@)] /\ UNCHANGED <<calls, next, grp, susp, gcnt, gfn, done, run>>
(* merging, in one step (the lock) *)
Merge(t) == LET r == FoldLeft(LAMBDA a, i : LET x == fn[t][i] IN IF Has(a[2], x) THEN <<[a[1] EXCEPT ![Idx(a[2], x)] = @ + cnt[t][i]], a[2]>> ELSE <<Append(a[1], cnt[t][i]), Append(a[2], x)>>,
                              <<gcnt, gfn>>, [i \in 1..Len(fn[t]) |-> i]) IN gcnt' = r[1] /\ gfn' = r[2]
Complete(t) == grp[t] # 0 /\ todo[grp[t]] = <<>> /\ Merge(t) /\ cnt' = [cnt EXCEPT ![t] = <<>>] /\ fn' = [fn EXCEPT ![t] = <<>>]
               /\ done' = done \cup {grp[t]} /\ grp' = [grp EXCEPT ![t] = 0] /\ UNCHANGED <<calls, next, susp, todo, run>>
Again == run = 1 /\ Cardinality(done) = Groups /\ run' = 2 /\ next' = 1 /\ todo' = calls[2] /\ gcnt' = <<>> /\ gfn' = <<>> /\ done' = {} /\ UNCHANGED <<calls, grp, susp, cnt, fn>>
Next == Again \/ \E t \in Threads : Begin(t) \/ Resume(t) \/ Call(t) \/ Complete(t)
Of(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
Exact == Cardinality(done) = Groups => \A x \in Fns : (IF Has(gfn, x) THEN gcnt[Idx(gfn, x)] ELSE 0) = FoldLeft(LAMBDA a, g : a + Of(x, calls[run][g]), 0, [g \in 1..Groups |-> g])
================================================================================
