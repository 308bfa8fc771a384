------------------------------- MODULE GroupGen ------------------------------
(* Random programs for the items of a work-group, free of interference        *)
(* between synchronisations, some of them then made to diverge.               *)
EXTENDS Group, Rnd, Json
CONSTANTS MaxPhases, Copies
VARIABLES n, P, busyD, busyS, ini, evs, step, phase, out
(* busyD/busyS: cells pending copies write/read; ini: written private cells;
   evs: pending copies of the generator, [slot, id]; P: programs so far *)
vars == <<n, P, busyD, busyS, ini, evs, out>>
Cell(k) == LET s == NthSeq(<<"la", "la", "lb", "l0", "l1", "gs", "gs">>, k) IN <<s, 1 + ((k \div 7) % SizeOf(s))>>
(* in every phase each cell belongs to one item, or may be read by all *)
Owner(c, r) == ((c[2] * 7 + (CASE c[1] = "la" -> 1 [] c[1] = "lb" -> 2 [] c[1] = "l0" -> 3 [] c[1] = "l1" -> 4 [] OTHER -> 5)) * (1 + r) + r) % (n + 1)
MemOp(i, k, r, bd, bs) ==
  LET c == Cell(k) own == Owner(c, r[20]) k2 == k \div 1000 IN
  IF k2 % 9 = 0 THEN <<[o |-> "pw", k |-> Rng(PrivSize, k), v |-> k % 251]>>
  ELSE IF k2 % 9 = 1 THEN <<[o |-> "pr", k |-> Rng(PrivSize, k)]>>
  ELSE IF k2 % 9 = 2 THEN <<[o |-> "call", v |-> k % 200]>>
  ELSE IF c \in bd THEN <<>>
  ELSE IF own = i /\ c \notin bs /\ k2 % 2 = 0 THEN <<[o |-> "w", sp |-> c[1], k |-> c[2], v |-> k % 256]>>
  ELSE IF own = i \/ own = 0 THEN <<[o |-> "r", sp |-> c[1], k |-> c[2]]>>
  ELSE <<>>
Sizes == <<1, 2, 4, 8, 16>>
(* a copy of n elements between a local array and the global part *)
Draft(r, a) ==
  LET sz == NthSeq(Sizes, r[a]) sp == NthSeq(<<"la", "la", "lb", "l0", "l1">>, r[a + 1]) dir == IF r[a + 2] % 2 = 0 THEN "in" ELSE "out"
      st == IF r[a + 3] % 3 = 0 THEN Rng(3, r[a + 3] \div 3) ELSE 1
      lmax == SizeOf(sp) \div sz gmax == SizeOf("gs") \div sz
      m == Rng(5, r[a + 4]) lo == r[a + 5] % 8 go == (r[a + 5] \div 8) % 12
      site == IF st = 1 /\ r[a + 6] % 2 = 0 THEN 1 ELSE IF st = 1 /\ r[a + 6] % 4 = 1 THEN 3 ELSE 2         \* plain, plain at another line, strided
      ok == lo + m <= lmax /\ go + (m - 1) * st + 1 <= gmax
  IN [ok |-> ok, c |-> [o |-> "cp", site |-> site, dir |-> dir, sp |-> sp, dst |-> (IF dir = "in" THEN lo ELSE go) * sz, src |-> (IF dir = "in" THEN go ELSE lo) * sz,
                        n |-> IF r[a + 7] % 20 = 0 THEN 0 ELSE m, st |-> st, sz |-> sz, slot |-> Rng(4, r[a + 7] \div 20), chain |-> 0]]
Free(c, bd, bs) == (DstBytes(c) \cap (bd \cup bs)) = {} /\ (SrcBytes(c) \cap bd) = {} /\ (DstBytes(c) \cap SrcBytes(c)) = {}
AddCopy(acc, r, a) ==       \* acc: [ops, bd, bs, evs]
  LET d == Draft(r, a) ch == IF acc.evs # <<>> /\ r[a + 6] % 3 = 0 THEN acc.evs[Rng(Len(acc.evs), r[a + 5])] ELSE 0
      c == [d.c EXCEPT !.chain = ch, !.slot = IF ch = 0 THEN @ ELSE IF r[a + 4] % 2 = 0 THEN ch ELSE @]
      taken == \E k \in 1..Len(acc.evs) : acc.evs[k] = c.slot
  IN IF ~d.ok \/ ~Free(c, acc.bd, acc.bs) \/ (taken /\ c.slot # ch) THEN acc
     ELSE [ops |-> Append(acc.ops, c), bd |-> acc.bd \cup DstBytes(c), bs |-> acc.bs \cup SrcBytes(c),
           evs |-> IF taken THEN acc.evs ELSE Append(acc.evs, c.slot)]
Rep(s) == [i \in 1..n |-> s]
Phase(r) ==
  \E a1 \in {LET a0 == [ops |-> <<>>, bd |-> busyD, bs |-> busyS, evs |-> evs] IN IF Copies /\ r[1] % 3 # 0 THEN AddCopy(a0, r, 2) ELSE a0} :
  \E a2 \in {IF Copies /\ r[1] % 4 = 0 THEN AddCopy(a1, r, 5) ELSE a1} :
  LET K(i, j) == (r[11 + ((i + j) % 8)] * (2 * i + 1) + r[21 + ((i * j) % 8)] * (j + 2)) % 99991
      mem(i, lo, hi) == LET RECURSIVE F(_) F(j) == IF j > hi THEN <<>> ELSE MemOp(i, K(i, j), r, a2.bd, a2.bs) \o F(j + 1) IN F(lo)
      waitAll == a2.evs # <<>> /\ r[29] % 3 # 0
      E == IF r[30] % 2 = 0 THEN a2.evs ELSE [k \in 1..Len(a2.evs) |-> a2.evs[Len(a2.evs) + 1 - k]]
      sync == IF waitAll THEN <<[o |-> "wt", site |-> Rng(2, r[31]), slots |-> E]>> ELSE <<[o |-> "b", site |-> Rng(5, r[31]), f |-> Rng(3, r[32])]>>
  IN /\ P' = TLCEval([i \in 1..n |-> P[i] \o mem(i, 1, 3) \o a2.ops \o mem(i, 4, 6) \o sync])
     /\ IF waitAll THEN busyD' = {} /\ busyS' = {} /\ evs' = <<>> ELSE busyD' = a2.bd /\ busyS' = a2.bs /\ evs' = a2.evs
     /\ UNCHANGED <<n, ini, out>>
(* ---- divergence ---- *)
SetAt(Q, i, s) == [Q EXCEPT ![i] = s]
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Insert(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
Idx(s, O) == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : s[k].o \in O)
Mutate(Q, r) ==
  LET i == Rng(n, r[1]) s == Q[i] b == Idx(s, {"b"}) y == Idx(s, {"b", "wt"}) w == Idx(s, {"wt"}) c == Idx(s, {"cp"}) k == r[3] IN
  CASE n = 1 /\ r[2] % 12 \in {4, 5, 6, 10} -> Q
    [] r[2] % 12 = 0 /\ y # <<>> -> SetAt(Q, i, Without(s, NthSeq(y, k)))
    [] r[2] % 12 = 1 /\ b # <<>> -> SetAt(Q, i, [s EXCEPT ![NthSeq(b, k)].site = 1 + (@ % 5)])
    [] r[2] % 12 = 2 /\ b # <<>> -> SetAt(Q, i, [s EXCEPT ![NthSeq(b, k)].f = 1 + (@ % 3)])
    [] r[2] % 12 = 3 /\ c # <<>> -> SetAt(Q, i, Without(s, NthSeq(c, k)))
    [] r[2] % 12 = 4 /\ c # <<>> -> SetAt(Q, i, [s EXCEPT ![NthSeq(c, k)].n = @ + 1])
    [] r[2] % 12 = 5 /\ c # <<>> -> SetAt(Q, i, [s EXCEPT ![NthSeq(c, k)].dst = @ + s[NthSeq(c, k)].sz])
    [] r[2] % 12 = 6 /\ c # <<>> -> SetAt(Q, i, [s EXCEPT ![NthSeq(c, k)].src = @ + s[NthSeq(c, k)].sz])
    [] r[2] % 12 = 7 /\ w # <<>> -> SetAt(Q, i, [s EXCEPT ![NthSeq(w, k)].slots = IF Len(@) > 1 THEN Tail(@) ELSE <<1 + (@[1] % 4)>>])
    [] r[2] % 12 = 8 -> SetAt(Q, i, SubSeq(s, 1, k % (Len(s) + 1)))
    [] r[2] % 12 = 9 -> SetAt(Q, i, Insert(s, 1 + (k % (Len(s) + 1)), [o |-> "b", site |-> 1, f |-> 1]))
    [] r[2] % 12 = 10 /\ c # <<>> -> LET x == NthSeq(c, k) IN SetAt(Q, i, [s EXCEPT ![x].site = IF @ = 2 THEN 2 ELSE 4 - @, ![x].st = IF s[x].site = 2 THEN @ + 1 ELSE @])
    [] r[2] % 12 = 11 /\ c # <<>> -> LET x == NthSeq(c, k) IN SetAt(Q, i, [s EXCEPT ![x].chain = IF @ = 0 THEN Rng(4, r[4]) ELSE 0])
    [] OTHER -> Q
(* wait for what is still pending, or not; wait for an event there never was *)
Close(r) == LET fin == IF evs = <<>> \/ r[5] % 6 = 0 THEN <<>> ELSE <<[o |-> "wt", site |-> 1, slots |-> evs]>>
                bad == IF Copies /\ r[6] % 15 = 0 THEN <<[o |-> "wt", site |-> 2, slots |-> <<5>>]>> ELSE <<>>
            IN [i \in 1..n |-> P[i] \o bad \o fin]
(* (bound by \E, not LET: TLC evaluates a LET definition again for every use in a constructor) *)
Finish(r) ==
  \E M \in {TLCEval(IF r[7] % 4 = 0 THEN Mutate(TLCEval(Close(r)), [r EXCEPT ![1] = r[8], ![2] = r[9], ![3] = r[10], ![4] = r[11]]) ELSE Close(r))} :
  \E g \in {Outcome([GInit(M) EXCEPT !.slot = ForAll(M, <<0, 0, 0, 0, 0>>)])} : \E U \in {Unknown(g)} :
    out' = <<[n |-> n, P |-> M, rep |-> SetToSeq(g.rep), halt |-> g.halt, obs |-> g.obs,
              mem |-> [s \in Spaces |-> [k \in 1..SizeOf(s) |-> IF <<s, k>> \in U THEN -1 ELSE g.mem[s][k]]]]>>
Init == n \in 1..6 /\ P = [i \in 1..n |-> <<>>] /\ busyD = {} /\ busyS = {} /\ ini = {} /\ evs = <<>> /\ step = 0 /\ phase = "run" /\ out = <<>>
Next == /\ step' = step + 1
        /\ \E r \in {Draw(step)} :
           \/ phase = "run" /\ step < MaxPhases /\ (r[1] % 7 # 0 \/ step = 0) /\ Phase(r) /\ UNCHANGED phase
           \/ phase = "run" /\ (step >= MaxPhases \/ (r[1] % 7 = 0 /\ step > 0)) /\ Finish(r) /\ UNCHANGED <<n, P, busyD, busyS, ini, evs>> /\ phase' = "done"
Emit == phase = "done" => PrintT(<<"T", ToJson(out[1])>>)
=============================================================================
