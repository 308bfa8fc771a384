---------------------------------- MODULE Taint --------------------------------
(* Which bytes of a work-item's values, and of private, local and global       *)
(* memory, depend on memory that was never written, and which uses of them are *)
(* to be reported. A value of 32 bits is described by the set of its bytes     *)
(* (1..4) that are uninitialised. Concrete values play no part.                *)
(* An item has 4 variables v, a private array a, two structures s and t of 4   *)
(* words and a vector w of 4 elements; it owns 4 words of local memory (l) and *)
(* 4 words of each of the buffers G (words) and H (structures).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
B == 1..4
All(x) == IF x = {} THEN {} ELSE B
None4 == [n \in B |-> {}]
Full4 == [n \in B |-> B]
Item0 == [v |-> Full4, a |-> Full4, s |-> Full4, t |-> Full4, w |-> Full4]
Dirty(x) == \E n \in B : x[n] # {}
Chosen(c) == ((5 * c + 3) % 8) < 3
Rep(c, k) == IF c THEN <<k>> ELSE <<>>
(* One statement of item i (its number in the launch). q: [z, l, g, h, rep];   *)
(* fields of a statement: k, i, j, m (numbers 1..4), n (1..3), e (1..4)        *)
Do(x, i, q) ==
  LET z == q.z v == z.v
      Set(t) == [q EXCEPT !.z.v[x.i] = t]
      Use(c, k) == [q EXCEPT !.rep = Rep(c, k)]
  IN CASE x.k = "con" -> Set({})
    [] x.k = "mov" -> Set(v[x.j])
    [] x.k = "op" -> Set(All(v[x.j] \cup v[x.m]))
    [] x.k = "cmp" -> Set(All(v[x.j] \cup v[x.m]))
    [] x.k = "shr" -> Set({b - x.n : b \in {c \in v[x.j] : c > x.n}})
    [] x.k = "shl" -> Set({b + x.n : b \in {c \in v[x.j] : c + x.n <= 4}})
    [] x.k = "byt" -> Set(IF x.e \in v[x.j] THEN {1} ELSE {})
    [] x.k = "setb" -> Set((v[x.i] \ {x.e}) \cup (IF 1 \in v[x.j] THEN {x.e} ELSE {}))
    [] x.k = "asr" -> Set({b - x.n : b \in {c \in v[x.j] : c > x.n}} \cup (IF 4 \in v[x.j] THEN (5 - x.n)..4 ELSE {}))
    [] x.k = "sext" -> Set(IF 1 \in v[x.j] THEN B ELSE {})
    [] x.k \in {"ul64", "bit"} -> Set(v[x.j])
    [] x.k = "rev8" -> Set({5 - b : b \in v[x.j]})
    [] x.k = "half" -> Set(v[x.j] \cap {1, 2})
    [] x.k = "selc" -> Set(IF x.n = 1 THEN v[x.m] ELSE v[x.j])
    [] x.k = "selt" -> Set(IF v[x.e] # {} THEN B ELSE v[x.j])           \* select(vj, vj, ve)
    \* choices by conditions that are initialised
    [] x.k = "sels" -> Set(IF Chosen((i + x.e) % 8) THEN v[x.j] ELSE v[x.m])
    [] x.k = "vsel" -> [q EXCEPT !.z.w = [n \in B |-> IF Chosen(((i + x.e) % 4) + n - 1) THEN z.w[n] ELSE v[n]]]
    [] x.k = "flt" -> Set(All(v[x.j]))
    [] x.k = "math" -> Set(All(v[x.j]))
    [] x.k = "math2" -> Set(All(v[x.j] \cup v[x.m]))
    [] x.k = "fn" -> Set(All(v[x.j] \cup v[x.m]))
    [] x.k = "fst" -> Set(v[x.j])
    [] x.k = "setp" -> Set(v[x.j])
    [] x.k = "swap" -> [q EXCEPT !.z.v = [v EXCEPT ![x.i] = v[x.j], ![x.j] = v[x.i]]]
    [] x.k = "loop" -> Set(IF x.n = 0 THEN v[x.i] ELSE All(v[x.i] \cup v[x.j]))          \* n times vi += vj
    \* private array, structures, vector
    [] x.k = "ast" -> [q EXCEPT !.z.a[x.e] = v[x.j]]
    [] x.k = "ald" -> Set(z.a[x.e])
    [] x.k = "adn" -> Set(z.a[((i + x.e) % 4) + 1])
    [] x.k = "sst" -> [q EXCEPT !.z.s[x.e] = v[x.j]]
    [] x.k = "sld" -> Set(z.s[x.e])
    [] x.k = "tld" -> Set(z.t[x.e])
    [] x.k = "scp" -> [q EXCEPT !.z.t = z.s]
    [] x.k = "szr" -> [q EXCEPT !.z.s = None4]
    [] x.k = "hfn" -> Set(All(z.s[1] \cup z.s[4]))
    [] x.k = "vmk" -> [q EXCEPT !.z.w = v]
    [] x.k = "vset" -> [q EXCEPT !.z.w[x.e] = v[x.j]]
    [] x.k = "vget" -> Set(z.w[x.e])
    [] x.k = "vcal" -> [q EXCEPT !.z.w = [n \in B |-> v[5 - n]]]
    [] x.k = "vmka" -> [q EXCEPT !.z.w = [n \in B |-> All(z.w[n] \cup v[n])]]
    [] x.k = "vext" -> Set(z.w[x.e])
    [] x.k = "vrev" -> [q EXCEPT !.z.w = [n \in B |-> z.w[5 - n]]]
    [] x.k = "vadd" -> [q EXCEPT !.z.w = [n \in B |-> All(z.w[5 - n] \cup z.w[n])]]
    [] x.k = "vshf" -> [q EXCEPT !.z.w = [n \in B |-> z.w[((n + x.e) % 4) + 1]]]
    \* local and global memory
    [] x.k = "lst" -> [q EXCEPT !.l[x.e] = v[x.j], !.rep = Rep(v[x.j] # {}, "val local")]
    [] x.k = "lld" -> Set(q.l[x.e])
    [] x.k = "gst" -> [q EXCEPT !.g[x.e] = v[x.j], !.rep = Rep(v[x.j] # {}, "val global")]
    [] x.k = "gld" -> Set(q.g[x.e])
    [] x.k = "gsb" -> [q EXCEPT !.g[x.e] = (@ \ {x.n}) \cup (IF 1 \in v[x.j] THEN {x.n} ELSE {}), !.rep = Rep(1 \in v[x.j], "val global")]
    [] x.k = "hsf" -> [q EXCEPT !.h[x.e] = v[x.j], !.rep = Rep(v[x.j] # {}, "val global")]
    [] x.k = "hst" -> [q EXCEPT !.h = z.s]                              \* structures are copied silently
    [] x.k = "hld" -> [q EXCEPT !.z.s = q.h]
    [] x.k = "vst" -> [q EXCEPT !.g = z.w, !.rep = Rep(Dirty(z.w), "val global")]
    [] x.k = "vld" -> [q EXCEPT !.z.w = q.g]
    [] x.k = "aad" -> LET t == All(q.g[x.e] \cup v[x.j]) IN [q EXCEPT !.g[x.e] = t, !.z.v[x.i] = q.g[x.e], !.rep = Rep(t # {}, "val global")]
    [] x.k = "axc" -> [q EXCEPT !.g[x.e] = All(v[x.j]), !.z.v[x.i] = q.g[x.e], !.rep = Rep(v[x.j] # {}, "val global")]
    [] x.k = "lad" -> LET t == All(q.l[x.e] \cup v[x.j]) IN [q EXCEPT !.l[x.e] = t, !.z.v[x.i] = q.l[x.e], !.rep = Rep(t # {}, "val local")]
    \* uses
    [] x.k \in {"br", "sw", "brf"} -> Use(v[x.j] # {}, "cf")
    [] x.k = "brc" -> Use((v[x.j] \cup v[x.m]) # {}, "cf")
    [] x.k = "arg" -> Use(v[x.j] # {}, "rd global")
    [] x.k = "arl" -> Use(v[x.j] # {}, "rd local")
    [] x.k = "arp" -> Use(v[x.j] # {}, "rd private")
    [] x.k = "awg" -> Use(v[x.j] # {}, "wr global")
    [] x.k = "awp" -> Use(v[x.j] # {}, "wr private")
    [] OTHER -> q
--------------------------------------------------------------------------------
(* One kernel over items 0..N-1 in groups of Lz: its statements in lockstep    *)
(* (statements that look at other items are between barriers). K:              *)
(* [g, h: item -> words]; result: [g, h, rep], rep: sequence of <<statement, item, kind>>; *)
(* group copies: whoever reports, <<statement, -1 - group, "copy">>            *)
Group(i, Lz) == i \div Lz
Mates(i, Lz, N) == {j \in 0..(N - 1) : Group(j, Lz) = Group(i, Lz)}
(* words of a group's rows as one sequence 0..4 Lz - 1 *)
Row(F(_), base, j) == F(base + (j \div 4))[(j % 4) + 1]
Dirt(F(_), base, Js) == \E j \in Js : Row(F, base, j) # {}
Shared(x) == x.k \in {"sh", "cpl", "cpg", "cpls", "cpgs"}
Step(x, pc, N, Lz, S) ==
  CASE x.k = "sh" -> [S EXCEPT !.it = TLCEval([i \in 0..(N - 1) |-> LET p == Group(i, Lz) * Lz + (((i % Lz) + x.n) % Lz) IN [S.it[i] EXCEPT !.z.v[x.i] = S.it[p].l[x.e]]])]
    [] x.k = "cpl" -> [S EXCEPT !.it = TLCEval([i \in 0..(N - 1) |-> [S.it[i] EXCEPT !.l = S.it[i].g]]),
                                !.rep = @ \o FoldLeft(LAMBDA a, i : IF i % Lz = 0 /\ \E j \in Mates(i, Lz, N) : Dirty(S.it[j].g) THEN Append(a, <<pc, -1 - Group(i, Lz), "copy">>) ELSE a, <<>>, [i \in 1..N |-> i - 1])]
    [] x.k = "cpg" -> [S EXCEPT !.it = TLCEval([i \in 0..(N - 1) |-> [S.it[i] EXCEPT !.g = S.it[i].l]]),
                                !.rep = @ \o FoldLeft(LAMBDA a, i : IF i % Lz = 0 /\ \E j \in Mates(i, Lz, N) : Dirty(S.it[j].l) THEN Append(a, <<pc, -1 - Group(i, Lz), "copy">>) ELSE a, <<>>, [i \in 1..N |-> i - 1])]
    \* with a stride of 2 in global memory: the first half of the group's local words, every other global word
    [] x.k = "cpls" -> [S EXCEPT !.it = TLCEval([i \in 0..(N - 1) |-> LET b == Group(i, Lz) * Lz IN
                                    [S.it[i] EXCEPT !.l = [e \in B |-> LET j == 4 * (i - b) + e - 1 IN IF j < 2 * Lz THEN Row(LAMBDA y : S.it[y].g, b, 2 * j) ELSE @[e]]]]),
                                !.rep = @ \o FoldLeft(LAMBDA a, i : IF i % Lz = 0 /\ Dirt(LAMBDA y : S.it[y].g, i, {2 * j : j \in 0..(2 * Lz - 1)}) THEN Append(a, <<pc, -1 - Group(i, Lz), "copy">>) ELSE a, <<>>, [i \in 1..N |-> i - 1])]
    [] x.k = "cpgs" -> [S EXCEPT !.it = TLCEval([i \in 0..(N - 1) |-> LET b == Group(i, Lz) * Lz IN
                                    [S.it[i] EXCEPT !.g = [e \in B |-> LET j == 4 * (i - b) + e - 1 IN IF j % 2 = 0 THEN Row(LAMBDA y : S.it[y].l, b, j \div 2) ELSE @[e]]]]),
                                !.rep = @ \o FoldLeft(LAMBDA a, i : IF i % Lz = 0 /\ Dirt(LAMBDA y : S.it[y].l, i, 0..(2 * Lz - 1)) THEN Append(a, <<pc, -1 - Group(i, Lz), "copy">>) ELSE a, <<>>, [i \in 1..N |-> i - 1])]
    [] OTHER -> LET f == TLCEval([i \in 0..(N - 1) |-> Do(x, i, [S.it[i] EXCEPT !.rep = <<>>])]) IN
                [it |-> f, rep |-> S.rep \o FoldLeft(LAMBDA a, i : a \o [r \in 1..Len(f[i].rep) |-> <<pc, i, f[i].rep[r]>>], <<>>, [i \in 1..N |-> i - 1])]
Kernel(P, N, Lz, K) ==
  LET S0 == [it |-> [i \in 0..(N - 1) |-> [z |-> Item0, l |-> Full4, g |-> K.g[i], h |-> K.h[i], rep |-> <<>>]], rep |-> <<>>]
      F == FoldLeft(LAMBDA S, pc : TLCEval(Step(P[pc], pc, N, Lz, S)), S0, [pc \in 1..Len(P) |-> pc])
  IN [g |-> [i \in 0..(N - 1) |-> F.it[i].g], h |-> [i \in 0..(N - 1) |-> F.it[i].h], rep |-> F.rep, it |-> F.it]
(* the host writes bytes off..off+len-1 of a buffer *)
HostWrite(buf, N, off, len) == [i \in 0..(N - 1) |-> [e \in B |-> {b \in buf[i][e] : LET a == 16 * i + 4 * (e - 1) + b - 1 IN a < off \/ a >= off + len}]]
Buf(N, t) == [i \in 0..(N - 1) |-> IF t THEN Full4 ELSE None4]
================================================================================
