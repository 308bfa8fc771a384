------------------------------- MODULE RaceMC --------------------------------
(* The definition of Race against interleavings: a program has a race iff in  *)
(* some interleaving two work-items are about to make conflicting accesses.   *)
EXTENDS Race
CONSTANT Full
VARIABLES P, fences
(* items: two of group 1, one of group 2; two phases of at most two accesses, to one global byte *)
Kind == {"ld", "st", "at", "cf"}
Items == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
Bodies == {<<>>} \cup {<<k>> : k \in Kind} \cup {<<"ld", "st">>, <<"cf", "st">>}
Init == P \in [Items -> [1..2 -> Bodies]] /\ fences = {"l", "g"} /\ (Full \/ P[<<2, 1>>][2] = <<>>)
Next == FALSE /\ UNCHANGED <<P, fences>>
(* position of an item: <<phase, accesses done in it>> *)
Start == [t \in Items |-> <<1, 0>>]
AtEnd(c, t) == c[t][2] = Len(P[t][c[t][1]])
Succ(c) == {[c EXCEPT ![t][2] = @ + 1] : t \in {u \in Items : ~AtEnd(c, u)}}
           \cup {[t \in Items |-> IF t[1] = g THEN <<2, 0>> ELSE c[t]] : g \in {h \in 1..2 : \A t \in Items : t[1] = h => c[t][1] = 1 /\ AtEnd(c, t)}}
RECURSIVE Reach(_, _)
Reach(S, new) == IF new = {} THEN S ELSE LET n == (UNION {Succ(c) : c \in new}) \ S IN Reach(S \cup n, n)
NextOp(c, t) == P[t][c[t][1]][c[t][2] + 1]
Clash(k1, k2) == (k1 \in {"st", "at"} \/ k2 \in {"st", "at"}) /\ ~(k1 \in {"at", "cf"} /\ k2 \in {"at", "cf"})
RacyRun == \E c \in Reach({Start}, {Start}) : \E t, u \in Items : t # u /\ ~AtEnd(c, t) /\ ~AtEnd(c, u) /\ Clash(NextOp(c, t), NextOp(c, u))
Accs == {[g |-> t[1], i |-> t[2], p |-> p, sp |-> "g", off |-> 0, n |-> 1, k |-> P[t][p][j], v |-> 0, d |-> 0] : <<t, p, j>> \in {z \in Items \X (1..2) \X (1..2) : z[3] <= Len(P[z[1]][z[2]])}}
F == <<<<fences>>, <<fences>>>>
RacyDef == \E a, b \in Accs : Conflict(F, a, b) /\ MayBytes(a, b, FALSE) # {}
Agree == RacyRun = RacyDef
=============================================================================
