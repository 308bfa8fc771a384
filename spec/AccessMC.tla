------------------------------- MODULE AccessMC ------------------------------
(* All short histories of one small allocation: mapping, unmapping, freeing,   *)
(* every access. A report about bounds is made exactly when some byte of the   *)
(* access is outside, and then nothing changes; bytes outside the access never *)
(* change; a report about a mapping exactly when some byte is in both.          *)
EXTENDS Access
CONSTANTS Size, MaxSteps
VARIABLES o, b, maps, last, pre, steps
vars == <<o, b, maps, last, pre, steps>>
Obj == <<o>>
Init == /\ \E f \in {"rw", "ro", "wo"} : o = [size |-> Size, alive |-> TRUE, flag |-> f]
        /\ b = [i \in 1..Size |-> 0] /\ maps = {} /\ last = <<>> /\ pre = [i \in 1..Size |-> 0] /\ steps = 0
Accesses == {[k |-> k, sp |-> 1, off |-> off, n |-> n, v |-> v, cmp |-> 0, does |-> TRUE] : k \in {"ld", "st", "at", "cx"}, off \in -2..(Size + 1), n \in {1, 2, 4}, v \in {1, 2}}
Does(a) == a.k # "cx" \/ (Inside(o, a.off, a.n) /\ Same(b, a.off, a.n, a.cmp))
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E a \in Accesses : LET x == [a EXCEPT !.does = Does(a)] IN last' = <<x>> /\ pre' = b /\ b' = After(Obj, b, x) /\ UNCHANGED <<o, maps>>
           \/ \E off \in 0..(Size - 1), n \in 1..Size, k \in {"r", "w"} : off + n <= Size /\ o.alive /\ maps' = maps \cup {[o |-> 1, off |-> off, n |-> n, kind |-> k]} /\ last' = <<>> /\ UNCHANGED <<o, b, pre>>
           \/ \E m \in maps : maps' = maps \ {m} /\ last' = <<>> /\ UNCHANGED <<o, b, pre>>
           \/ maps = {} /\ o' = [o EXCEPT !.alive = FALSE] /\ last' = <<>> /\ UNCHANGED <<b, maps, pre>>
Rep == {x[1] : x \in AccessReports(Obj, maps, last[1])}
Bytes(a) == (a.off + 1)..(a.off + a.n)
Right == last # <<>> => LET a == last[1] IN
  /\ (Rep \cap {"read", "write"} # {}) = (~o.alive \/ \E i \in Bytes(a) : i \notin 1..Size)
  /\ (Rep \cap {"read", "write"} # {}) => b = pre
  /\ \A i \in 1..Size : i \notin Bytes(a) => b[i] = pre[i]
  /\ b # pre => Writes(a.k) /\ ("ro" \in Rep) = (o.flag = "ro")
  /\ (\A m \in maps : \A i \in Bytes(a) : i <= m.off \/ i > m.off + m.n) => Rep \cap {"mapw", "mapped"} = {}
  /\ ("mapw" \in Rep) => Reads(a.k) /\ \E m \in maps : m.kind = "w" /\ \E i \in Bytes(a) : i > m.off /\ i <= m.off + m.n
=============================================================================
