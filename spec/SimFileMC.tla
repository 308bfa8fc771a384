-------------------------------- MODULE SimFileMC ------------------------------
(* All small files with one or two arguments: what is dumped, against integer  *)
(* arithmetic.                                                                 *)
EXTENDS SimFile
CONSTANTS Lo, Hi, MaxN
VARIABLES t, ft, s, inc, n, x, items, set
vars == <<t, ft, s, inc, n, x, items, set>>
INTS == Range(SubSeq(Types, 1, 6))
Init == t \in INTS /\ ft \in INTS /\ s \in (-Lo)..Hi /\ inc \in {-1, 1, 3} /\ n \in 1..MaxN /\ x \in {-2, 0, 5} /\ items \in 1..3 /\ set \in BOOLEAN
Next == FALSE /\ UNCHANGED vars
A == [name |-> "a", q |-> "g", t |-> t, vec |-> 1, ft |-> ft, expl |-> TRUE, size |-> n * Size(ft), init |-> [k |-> "range", s |-> s, i |-> inc], dump |-> TRUE, hex |-> FALSE, ro |-> FALSE, wo |-> FALSE]
P == [A EXCEPT !.name = "p", !.q = "p", !.t = "int", !.ft = "int", !.size = 4, !.init = [k |-> "fill", v |-> Bytes(x, 4)], !.dump = FALSE]
F == [args |-> <<A, P>>, body |-> <<[dst |-> 1, src |-> 2, set |-> set, i |-> 1]>>, n |-> <<items, 1, 1>>, l |-> <<1, 1, 1>>, c |-> 7]
Mod(w) == CASE w = 1 -> 256 [] w = 2 -> 65536 [] OTHER -> 1073741824
Wrap(v, u) == LET m == Mod(Size(u)) r == v % m IN IF Size(u) = 4 THEN v ELSE IF Signed(u) /\ r >= m \div 2 THEN r - m ELSE r
Want(i) == IF i <= items THEN (IF set THEN 0 ELSE s + (i - 1) * inc) + 7 + x ELSE s + (i - 1) * inc
(* where the description's type is the argument's *)
Same == ft = t /\ t # "uint" => LET d == Dumps(F)[1].v IN Len(d) = n /\ \A i \in 1..n : d[i] = ToString(Wrap(Want(i), t))
Sized == t = ft => ~Bad(F, 1)
Uneven == Bad(F, 1) <=> (A.size % Size(ft) # 0)
(* views of the same bytes agree *)
Views == Valid(F) /\ (n * Size(ft)) % Size(t) = 0 => LET m == Final(F, 1) IN Len(m) = A.size /\ Flat([i \in 1..n |-> Elem(m, ft, i - 1)]) = m
================================================================================
