---------------------------------- MODULE Conf ---------------------------------
(* Race-free kernels in which items exchange values through local memory,      *)
(* group copies and commutative atomics, and what a launch of one leaves in    *)
(* memory and prints -- a function of the program, the NDRange and the set of  *)
(* groups that run, and of nothing else. Quick mode runs the first and the     *)
(* last group only. Values are 16 bits wide.                                   *)
(* Statements (x is the item's variable):                                      *)
(*  lin c d: x = x c + d        in a: x += IN[(gid a) % 64]    con a: same, CN *)
(*  sh r: L[lid] = x, barrier, x += L[(lid + r) % size of the group], barrier   *)
(*  gcp a: group copy of IN[a..a+7] to local memory, x += one of these          *)
(*  ato c: atomic add of x % 16 to counter c    amx: atomic max, amn: min      *)
(*  out s: OUT[s][gid] = x      slot: own slot of global memory                *)
(*  pr s: print                 arr, vec, call, str, ptr: the same in variants *)
(*  if m c t e: x % m = c       for n m b: n + gid % m times                   *)
(*  lead: the group's first item writes a value the others read after a barrier*)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
M16 == 65536
InV(i) == (i * 37 + 11) % 256
CnV(i) == (i * 91 + 5) % 512
Slots == 3
Lin(p, n) == p[1] + n[1] * (p[2] + n[2] * p[3])
Point(i, n) == <<i % n[1], (i \div n[1]) % n[2], i \div (n[1] * n[2])>>
Ceil(a, b) == (a + b - 1) \div b
NG(R) == [d \in 1..3 |-> Ceil(R.n[d], R.l[d])]
NGroups(R) == NG(R)[1] * NG(R)[2] * NG(R)[3]
GSz(R, w) == [d \in 1..3 |-> IF R.l[d] * (w[d] + 1) > R.n[d] THEN R.n[d] - R.l[d] * w[d] ELSE R.l[d]]
Executed(R, quick) == IF quick THEN {0, NGroups(R) - 1} ELSE 0..(NGroups(R) - 1)
--------------------------------------------------------------------------------
(* what an item does alone: state [x, o (slot -> value or -1), c (added to the two counters), mx, mn, p (printed)] *)
RECURSIVE Do(_, _, _)
Do(s, g, z) ==
  CASE s.k = "lin" -> [z EXCEPT !.x = (@ * s.c + s.d) % M16]
    [] s.k = "in" -> [z EXCEPT !.x = (@ + InV((g * s.a) % 64)) % M16]
    [] s.k = "con" -> [z EXCEPT !.x = (@ + CnV((g * s.a) % 64)) % M16]
    [] s.k = "ato" -> [z EXCEPT !.c[s.c] = @ + (z.x % 16)]
    [] s.k = "amx" -> [z EXCEPT !.mx = IF z.x > @ THEN z.x ELSE @]
    [] s.k = "amn" -> [z EXCEPT !.mn = IF z.x < @ THEN z.x ELSE @]
    [] s.k = "out" -> [z EXCEPT !.o[s.s] = z.x]
    [] s.k = "slot" -> [z EXCEPT !.x = (@ + s.a) % M16]
    [] s.k = "pr" -> [z EXCEPT !.p = Append(@, <<s.s, z.x>>)]
    [] s.k = "arr" -> [z EXCEPT !.x = (3 * (@ + (@ % 4) * s.a) + 1) % M16]     \* t[j] = x + j a; x = 3 t[x % 4] + 1
    [] s.k = "vec" -> [z EXCEPT !.x = (@ * 5 + 4 * s.a) % M16]                  \* v = x + (0, a, 2a, 3a); x = v.x + v.y + v.z + ... 
    [] s.k = "call" -> [z EXCEPT !.x = IF @ % 2 = 0 THEN (@ \div 2 + s.a) % M16 ELSE (@ * 3 + 1) % M16]
    [] s.k = "str" -> [z EXCEPT !.x = (@ + 2 * s.a) % M16]
    [] s.k = "ptr" -> [z EXCEPT !.x = (@ + s.a * 7) % M16]
    [] s.k = "if" -> FoldLeft(LAMBDA a, t : Do(t, g, a), z, IF z.x % s.m = s.c THEN s.t ELSE s.e)
    [] s.k = "for" -> LET RECURSIVE Loop(_, _)
                          Loop(i, a) == IF i = 0 THEN a ELSE Loop(i - 1, TLCEval(FoldLeft(LAMBDA b, t : Do(t, g, b), a, s.b)))
                      IN Loop(s.n + (g % s.m), z)
(* what the items of a group (linear ids 0..n-1, global ids gid) do together; Z: local id -> state *)
Together(s, n, gid, Z) ==
  CASE s.k = "sh" -> [i \in 0..(n - 1) |-> [Z[i] EXCEPT !.x = (@ + Z[(i + s.r) % n].x) % M16]]
    [] s.k = "gcp" -> [i \in 0..(n - 1) |-> [Z[i] EXCEPT !.x = (@ + InV(s.a + (i % 8))) % M16]]
    [] s.k = "lead" -> [i \in 0..(n - 1) |-> [Z[i] EXCEPT !.x = (@ + Z[0].x + s.a) % M16]]
    [] OTHER -> [i \in 0..(n - 1) |-> Do(s, gid[i], Z[i])]
Z0(g) == [x |-> g % M16, o |-> [s \in 1..Slots |-> -1], c |-> <<0, 0>>, mx |-> 0, mn |-> M16, p |-> <<>>]
(* group w: sequence of [g, z] *)
RunGroup(P, R, wl) ==
  LET w == Point(wl, NG(R)) sz == GSz(R, w) n == sz[1] * sz[2] * sz[3]
      gid == TLCEval([i \in 0..(n - 1) |-> LET q == Point(i, sz) IN Lin([d \in 1..3 |-> w[d] * R.l[d] + q[d]], R.n)])
      zs == FoldLeft(LAMBDA Z, s : TLCEval(Together(s, n, gid, Z)), TLCEval([i \in 0..(n - 1) |-> Z0(gid[i])]), P)
  IN [i \in 1..n |-> [g |-> gid[i - 1], z |-> zs[i - 1]]]
(* the launch: what each item that ran left and printed, and the shared counters *)
Launch(P, R, quick) ==
  LET its == TLCEval(FoldLeft(LAMBDA a, w : a \o RunGroup(P, R, w), <<>>, SetToSortSeq(Executed(R, quick), <)))
      sum(k) == FoldLeft(LAMBDA a, y : a + y.z.c[k], 0, its)
  IN [items |-> [i \in 1..Len(its) |-> [g |-> its[i].g, o |-> its[i].z.o, p |-> its[i].z.p]],
      c |-> <<sum(1), sum(2)>>, mx |-> FoldLeft(LAMBDA a, y : IF y.z.mx > a THEN y.z.mx ELSE a, 0, its), mn |-> FoldLeft(LAMBDA a, y : IF y.z.mn < a THEN y.z.mn ELSE a, M16, its)]
================================================================================
