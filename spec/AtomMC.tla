--------------------------------- MODULE AtomMC --------------------------------
(* Operations as the interpreter performs them: acquire the mutex the word     *)
(* hashes to, read, write, release; several mutexes, words sharing them. Every *)
(* execution equals one of the operations performed one at a time (order).     *)
EXTENDS Atom
CONSTANTS Items, Words, Mutexes, Len_, Locks
VARIABLES prog, pc, ph, old, mem, held, order, rets
vars == <<prog, pc, ph, old, mem, held, order, rets>>
Vals == {<<v>> : v \in 0..(Base - 1)}
Mutex(w) == w % Mutexes
OpSet == {[o |-> o, s |-> s, a |-> a, b |-> b, w |-> w] : o \in Ops, s \in BOOLEAN, a \in {<<1>>, <<Base - 1>>}, b \in {<<2>>}, w \in 1..Words}
Init == /\ prog \in [Items -> {s \in [1..Len_ -> OpSet] : TRUE}] /\ pc = [i \in Items |-> 1] /\ ph = [i \in Items |-> "idle"]
        /\ old = [i \in Items |-> <<0>>] /\ mem = [w \in 1..Words |-> <<1>>] /\ held = {} /\ order = <<>> /\ rets = [i \in Items |-> <<>>]
Op(i) == prog[i][pc[i]]
Acquire(i) == pc[i] <= Len_ /\ ph[i] = "idle" /\ (Locks => Mutex(Op(i).w) \notin held) /\ held' = held \cup {Mutex(Op(i).w)} /\ ph' = [ph EXCEPT ![i] = "locked"] /\ UNCHANGED <<prog, pc, old, mem, order, rets>>
Read(i) == ph[i] = "locked" /\ old' = [old EXCEPT ![i] = mem[Op(i).w]] /\ ph' = [ph EXCEPT ![i] = "read"] /\ UNCHANGED <<prog, pc, mem, held, order, rets>>
Write(i) == ph[i] = "read" /\ mem' = [mem EXCEPT ![Op(i).w] = New(Op(i), old[i])] /\ order' = Append(order, <<i, pc[i]>>) /\ rets' = [rets EXCEPT ![i] = Append(@, old[i])] /\ ph' = [ph EXCEPT ![i] = "written"] /\ UNCHANGED <<prog, pc, old, held>>
Release(i) == ph[i] = "written" /\ held' = held \ {Mutex(Op(i).w)} /\ pc' = [pc EXCEPT ![i] = @ + 1] /\ ph' = [ph EXCEPT ![i] = "idle"] /\ UNCHANGED <<prog, old, mem, order, rets>>
Next == \E i \in Items : Acquire(i) \/ Read(i) \/ Write(i) \/ Release(i)
(* the operations performed one at a time in that order give the same results *)
Seq_ == FoldLeft(LAMBDA x, e : LET op == prog[e[1]][e[2]] IN [m |-> [x.m EXCEPT ![op.w] = New(op, @)], r |-> [x.r EXCEPT ![e[1]] = Append(@, x.m[op.w])]],
                 [m |-> [w \in 1..Words |-> <<1>>], r |-> [i \in Items |-> <<>>]], order)
OneAtATime == Seq_.m = mem /\ Seq_.r = rets
(* the functions of the operations *)
ASSUME \A v \in Vals, a \in Vals : LET n(o, s) == New([o |-> o, s |-> s, a |-> a, b |-> <<2>>], v)[1] S(x) == IF x >= Base \div 2 THEN x - Base ELSE x IN
         /\ n("add", FALSE) = (v[1] + a[1]) % Base /\ n("sub", FALSE) = (v[1] - a[1]) % Base /\ n("inc", FALSE) = (v[1] + 1) % Base /\ n("dec", TRUE) = (v[1] - 1) % Base
         /\ n("xchg", TRUE) = a[1] /\ n("min", FALSE) = (IF a[1] < v[1] THEN a[1] ELSE v[1]) /\ n("max", FALSE) = (IF a[1] > v[1] THEN a[1] ELSE v[1])
         /\ S(n("min", TRUE)) = (IF S(a[1]) < S(v[1]) THEN S(a[1]) ELSE S(v[1])) /\ S(n("max", TRUE)) = (IF S(a[1]) > S(v[1]) THEN S(a[1]) ELSE S(v[1]))
         /\ n("cmpxchg", FALSE) = (IF v = a THEN 2 ELSE v[1]) /\ n("and", FALSE) + n("or", FALSE) = v[1] + a[1] /\ n("xor", FALSE) = n("or", FALSE) - n("and", FALSE)
================================================================================
