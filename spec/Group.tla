-------------------------------- MODULE Group --------------------------------
(* The work-items of one work-group: private and local memory, barriers,      *)
(* asynchronous copies. Memory is bytes. Every item runs a sequence of        *)
(* operations; an item that reaches a barrier or a wait stops until the whole *)
(* group is there.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Spaces == {"la", "lb", "l0", "l1", "gs"}       \* two local variables, two local arguments, this group's part of a global buffer
SizeOf(s) == CASE s = "la" -> 32 [] s = "lb" -> 16 [] s = "l0" -> 24 [] s = "l1" -> 16 [] OTHER -> 64
PrivSize == 6
GsInit(i) == (i * 37 + 11) % 256
Mem0 == TLCEval([s \in Spaces |-> TLCEval([i \in 1..SizeOf(s) |-> IF s = "gs" THEN GsInit(i) ELSE 7])])
(* state of a group running programs P (P[i]: the operations of item i) *)
ForAll(P, x) == TLCEval([i \in DOMAIN P |-> x])
GInit(P) == [P |-> P, mem |-> Mem0, pc |-> ForAll(P, 1), priv |-> ForAll(P, TLCEval([k \in 1..PrivSize |-> 0])),
             obs |-> ForAll(P, <<>>), slot |-> ForAll(P, <<0, 0, 0, 0>>), made |-> ForAll(P, 0),
             copies |-> <<>>, next |-> 1, rep |-> {}, halt |-> FALSE]
N(g) == Len(g.P)
Ended(g, i) == g.pc[i] > Len(g.P[i])
Op(g, i) == g.P[i][g.pc[i]]
AtSync(g, i) == ~Ended(g, i) /\ Op(g, i).o \in {"b", "wt"}
Running(g, i) == ~g.halt /\ ~Ended(g, i) /\ ~AtSync(g, i)
Adv(g, i) == [g EXCEPT !.pc[i] = @ + 1]
See(g, i, v) == [g EXCEPT !.pc[i] = @ + 1, !.obs[i] = Append(@, v)]
Pending(g) == {c \in 1..Len(g.copies) : ~g.copies[c].done}
Events(g) == {g.copies[c].ev : c \in Pending(g)}
(* byte j of the destination of a copy, and of its source, from 1 *)
ElemByte(off, st, sz, j) == off + 1 + ((j - 1) \div sz) * st * sz + ((j - 1) % sz)
DstByte(c, j) == IF c.dir = "in" THEN ElemByte(c.dst, 1, c.sz, j) ELSE ElemByte(c.dst, c.st, c.sz, j)
SrcByte(c, j) == IF c.dir = "in" THEN ElemByte(c.src, c.st, c.sz, j) ELSE ElemByte(c.src, 1, c.sz, j)
DstSp(c) == IF c.dir = "in" THEN c.sp ELSE "gs"
SrcSp(c) == IF c.dir = "in" THEN "gs" ELSE c.sp
DstBytes(c) == {<<DstSp(c), DstByte(c, j)>> : j \in 1..(c.n * c.sz)}
SrcBytes(c) == {<<SrcSp(c), SrcByte(c, j)>> : j \in 1..(c.n * c.sz)}
Transfer(m, c) == LET D == {DstByte(c, j) : j \in 1..(c.n * c.sz)} IN
  [m EXCEPT ![DstSp(c)] = TLCEval([k \in DOMAIN @ |-> IF k \in D THEN m[SrcSp(c)][SrcByte(c, CHOOSE j \in 1..(c.n * c.sz) : DstByte(c, j) = k)] ELSE @[k]])]
(* a copy call: the first item to make it creates it, the others must make the same *)
CopyCall(g, i, o) ==
  LET k == g.made[i] + 1 ch == IF o.chain = 0 THEN 0 ELSE g.slot[i][o.chain]
      key == <<o.site, o.dir, o.sp, o.dst, o.src, o.n, o.st, o.sz, ch>>
  IN IF k <= Len(g.copies)
     THEN LET c == g.copies[k] IN
          IF c.key = key THEN [Adv(g, i) EXCEPT !.made[i] = k, !.slot[i][o.slot] = c.ev, !.copies[k].who = @ \cup {i}]
          ELSE [g EXCEPT !.rep = @ \cup {"copy"}, !.halt = TRUE]
     ELSE LET ev == IF ch = 0 THEN g.next ELSE ch IN
          [Adv(g, i) EXCEPT !.made[i] = k, !.slot[i][o.slot] = ev, !.next = IF ch = 0 THEN @ + 1 ELSE @,
                            !.copies = Append(@, [key |-> key, ev |-> ev, who |-> {i}, done |-> FALSE, dir |-> o.dir, sp |-> o.sp, dst |-> o.dst, src |-> o.src, n |-> o.n, st |-> o.st, sz |-> o.sz])]
Step(g, i) ==
  LET o == Op(g, i) IN
  CASE o.o = "w" -> [Adv(g, i) EXCEPT !.mem = [@ EXCEPT ![o.sp] = [@ EXCEPT ![o.k] = o.v]]]
    [] o.o = "r" -> See(g, i, g.mem[o.sp][o.k])
    [] o.o = "pw" -> [Adv(g, i) EXCEPT !.priv[i][o.k] = o.v]
    [] o.o = "pr" -> See(g, i, g.priv[i][o.k])
    (* a call: the callee fills its own variables, calls on, and leaves the caller's alone *)
    [] o.o = "call" -> See(g, i, (o.v * 6) % 256)
    [] o.o = "cp" -> CopyCall(g, i, o)
(* all items are at a barrier or wait, or have ended *)
Quiet(g) == ~g.halt /\ \A i \in 1..N(g) : ~Running(g, i)
Over(g) == g.halt \/ \A i \in 1..N(g) : Ended(g, i)
Key(g, i) == LET o == Op(g, i) IN IF o.o = "b" THEN <<"b", o.site, o.f>> ELSE <<"wt", o.site, [k \in 1..Len(o.slots) |-> g.slot[i][o.slots[k]]]>>
RECURSIVE TransferAll(_, _, _)
TransferAll(m, cs, todo) == IF todo = {} THEN m ELSE LET c == CHOOSE x \in todo : \A y \in todo : x <= y IN TransferAll(Transfer(m, cs[c]), cs, todo \ {c})
Sync(g) ==
  IF \E i \in 1..N(g) : Ended(g, i) THEN [g EXCEPT !.rep = @ \cup {"barrier"}, !.halt = TRUE]
  ELSE IF \E i \in 1..N(g) : Key(g, i) # Key(g, 1) THEN [g EXCEPT !.rep = @ \cup {"barrier"}, !.halt = TRUE]
  ELSE LET o == Op(g, 1) adv == [g EXCEPT !.pc = TLCEval([i \in DOMAIN @ |-> @[i] + 1])] IN
       IF o.o = "b" THEN adv
       ELSE LET E == {g.slot[1][o.slots[k]] : k \in 1..Len(o.slots)} C == {c \in Pending(g) : g.copies[c].ev \in E}
                R == (IF E \subseteq Events(g) THEN {} ELSE {"event"}) \cup (IF \E c \in C : g.copies[c].who # 1..N(g) THEN {"copy"} ELSE {})
            IN IF "copy" \in R THEN [g EXCEPT !.rep = @ \cup R, !.halt = TRUE]
               ELSE [adv EXCEPT !.rep = @ \cup R, !.mem = TransferAll(@, g.copies, C), !.copies = TLCEval([c \in DOMAIN @ |-> IF c \in C THEN [@[c] EXCEPT !.done = TRUE] ELSE @[c]])]
(* at the end: copies nobody waited for *)
Final(g) == IF g.halt \/ Pending(g) = {} THEN g ELSE [g EXCEPT !.rep = @ \cup {"unwaited"}]
Unknown(g) == UNION {DstBytes(g.copies[c]) : c \in Pending(g)}
(* the group's outcome when its items run in turn *)
(* (iterations by FoldLeft: TLC evaluates deep recursion slowly)             *)
Times(k) == [x \in 1..k |-> x]
RunItem(g, i) == FoldLeft(LAMBDA x, k : IF Running(x, i) THEN Step(x, i) ELSE x, g, Times(Len(g.P[i]) + 1 - g.pc[i]))
RunAll(g) == FoldLeft(LAMBDA x, i : RunItem(x, i), g, Times(N(g)))
Outcome(g) == Final(FoldLeft(LAMBDA x, k : IF Over(x) THEN x ELSE LET y == RunAll(x) IN IF Over(y) THEN y ELSE Sync(y), g, Times(1 + Cardinality({<<i, k>> \in (1..N(g)) \X (1..60) : k <= Len(g.P[i]) /\ g.P[i][k].o \in {"b", "wt"}}))))
=============================================================================
