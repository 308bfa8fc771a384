------------------------------ MODULE NDRangeMC ------------------------------
EXTENDS NDRange
CONSTANTS Step          \* also explore the order of execution?
Small == IF Step THEN {<<x, y, 1>> : x \in 0..3, y \in 1..2} ELSE {<<x, y, z>> : x \in 0..5, y \in 0..3, z \in 1..3}
Locals == IF Step THEN {<<1, 1, 1>>, <<2, 1, 1>>, <<2, 2, 1>>} ELSE {<<x, y, z>> : x \in 1..4, y \in 1..3, z \in 1..2}
Init == \E g \in Small, l \in Locals, o \in {<<0, 0, 0>>, <<1, 2, 0>>} : NInit([dim |-> 3, g |-> g, l |-> l, o |-> o])
Next == Step /\ (\/ \E w \in Groups(L) : BeginGroup(w) \/ EndGroup(w)
                 \/ \E i \in AllItems(L) : BeginItem(i) \/ EndItem(i)
                 \/ End)
(* the groups partition the items *)
Partition == /\ AllItems(L) = UNION {Items(L, w) : w \in Groups(L)}
             /\ \A w \in Groups(L) : \A i \in Items(L, w) : GroupOf(L, i) = w
             /\ \A w \in Groups(L) : LET s == GroupSize(L, w) IN Cardinality(Items(L, w)) = s[1] * s[2] * s[3] /\ \A d \in 1..3 : s[d] >= 1 /\ s[d] <= L.l[d]
             /\ \A i \in AllItems(L) : LET v == Values(L, i) IN
                  /\ \A d \in 1..3 : v[d] = v[8 + d] * v[20 + d] + v[4 + d] + v[28 + d]     \* id = group * enqueued local size + local + offset
                  /\ v[5] < v[17] /\ v[6] < v[18] /\ v[7] < v[19]
             /\ {Values(L, i)[34] : i \in AllItems(L)} = 0..(Cardinality(AllItems(L)) - 1)
             /\ \A w \in Groups(L) : {Values(L, i)[35] : i \in Items(L, w)} = 0..(Cardinality(Items(L, w)) - 1)
OnceEach == ended => done = AllItems(L) /\ run = {} /\ grp = {}
Nested == \A i \in run : GroupOf(L, i) \in grp
=============================================================================
