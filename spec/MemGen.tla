-------------------------------- MODULE MemGen --------------------------------
(* Random histories of transfers, views and mappings, with the contents of    *)
(* all memory after every step.                                               *)
EXTENDS Mem, Rnd, Json
CONSTANTS MaxOps, Focus
VARIABLES h, step, phase
HN == 128
gvars == <<vars, h>>
Skip == UNCHANGED gvars
Alt(o, q) == IF Inside(q, objs[o].len) THEN 0 ELSE InvalidValue
(* the log entry: the request, its result, and the objects and host bytes that changed *)
Delta == [d |-> LET C == {i \in 1..Len(mem') : objs'[i].par = 0 /\ (i > Len(mem) \/ mem'[i] # mem[i])} s == SetToSeq(C)
                IN [k \in 1..Len(s) |-> [i |-> s[k], v |-> mem'[s[k]]]],
          hd |-> IF host' = host THEN <<>> ELSE host']
Log(x) == h' = Append(h, x @@ Delta)
Bytes(n, s) == [i \in 1..n |-> (s * 31 + i * (7 + 2 * (s % 50)) + (i * i * (s % 7))) % 256]
Acc(k) == LET x == k % 20 IN IF x = 0 THEN "ro" ELSE IF x = 1 THEN "wo" ELSE IF x = 2 THEN "no" ELSE "rw"
Roots == {o \in Live : objs[o].par = 0}
Plain == {m \in 1..Len(maps) : maps[m].live}
MakeOp(r) ==
  IF Roots = {} \/ (Cardinality(Roots) < 3 /\ r[2] % 3 > 0) \/ (r[2] % 4 = 0 /\ Cardinality(Roots) < 5)
  THEN LET n == Between(24, 72, r[3]) f == NthSeq(<<"plain", "copy", "use">>, r[4]) bs == Bytes(n, r[5])
       IN Create(n, bs, Acc(r[6]), f = "use") /\ Log([o |-> "make", f |-> f, n |-> n, acc |-> Acc(r[6]), v |-> bs, r |-> 0])
  ELSE IF r[2] % 8 = 7 /\ {o \in Live : Subs(o) = {} /\ Mapped(o) = {}} # {}
  THEN LET o == Nth({x \in Live : Subs(x) = {} /\ Mapped(x) = {}}, r[7]) IN Release(o) /\ Log([o |-> "free", i |-> o, r |-> 0])
  ELSE LET p == IF r[8] % 12 = 0 THEN Nth(Live, r[9]) ELSE Nth(Roots, r[9])
           off == IF r[10] % 11 = 0 THEN -Rng(3, r[11]) * 4 ELSE (r[11] % ((objs[p].len \div 4) + 1)) * 4
           n == IF r[12] % 13 = 0 THEN 0 ELSE IF r[12] % 5 = 0 \/ off < 0 \/ off >= objs[p].len THEN Between(1, 30, r[13]) ELSE Rng(objs[p].len - off, r[13])
           acc == IF r[14] % 9 = 0 /\ Acc(r[15]) # "rw" THEN Acc(r[15]) ELSE objs[p].acc
       IN CreateSub(p, off, n, acc) /\ Log([o |-> "sub", p |-> p, off |-> off, n |-> n, acc |-> acc, inh |-> acc = objs[p].acc /\ r[16] % 2 = 0, ka |-> (r[16] \div 2) % 2, r |-> SubRes(p, off, n)])
(* a byte range of object o: mostly inside, sometimes one too far, sometimes wrapping around *)
Off(o, k, j) == IF k % 17 = 0 THEN -Rng(20, j) ELSE IF k % 4 = 0 THEN 0 ELSE j % objs[o].len
Cnt(o, off, k, j) == IF off < 0 THEN Between(-off, -off + 20, j)     \* off + cnt wraps to a small number
                     ELSE IF k % 7 = 0 THEN objs[o].len - off ELSE IF k % 7 = 1 THEN objs[o].len - off + Rng(2, j) ELSE Rng(objs[o].len - off, j)
RangeOp(r) ==
  LET o == Nth(Live, r[2]) off == Off(o, r[3], r[4]) n == Cnt(o, off, r[5], r[6]) q == Range1(off, n)
      ho == r[7] % (HN - n + 1) b == r[8] % 2
  IN IF n > HN THEN Skip
     ELSE IF r[9] % 2 = 0
     THEN DoRead(o, q, Range1(ho, n)) /\ Log([o |-> "read", i |-> o, off |-> off, n |-> n, ho |-> ho, b |-> b, a |-> Alt(o, q), r |-> ReadRes(o, q)])
     ELSE DoWrite(o, q, Range1(ho, n)) /\ Log([o |-> "write", i |-> o, off |-> off, n |-> n, ho |-> ho, b |-> b, a |-> Alt(o, q), r |-> WriteRes(o, q)])
CopyOp(r) ==
  LET a == Nth(Live, r[2]) b == IF r[3] % 3 = 0 THEN a ELSE Nth(Live, r[3] \div 3)
      oa == Off(a, r[4], r[5]) ob == Off(b, r[6], r[7])
      m == IF r[10] % 5 = 0 THEN (IF oa < 0 THEN 8 ELSE objs[a].len - oa) ELSE LET x == objs[a].len - oa y == objs[b].len - ob IN IF oa < 0 \/ ob < 0 THEN 12 ELSE IF x < y THEN x ELSE y
      n == IF m < 1 THEN 1 ELSE IF r[8] % 6 = 0 THEN m ELSE Rng(m, r[9])
  IN DoCopy(a, Range1(oa, n), b, Range1(ob, n)) /\ Log([o |-> "copy", i |-> a, j |-> b, oa |-> oa, ob |-> ob, n |-> n, r |-> CopyRes(a, Range1(oa, n), b, Range1(ob, n))])
FillOp(r) ==
  LET o == Nth(Live, r[2]) w == NthSeq(<<1, 2, 4, 8, 16>>, r[3]) off == IF r[4] % 15 = 0 THEN -w ELSE w * (r[5] % (1 + objs[o].len \div w))
      c == IF off < 0 THEN 2 ELSE IF r[6] % 6 = 0 THEN 1 + (objs[o].len - off) \div w ELSE Rng(1 + (objs[o].len - off) \div w, r[7])
      q == Range1(off, c * w)
  IN DoFill(o, q, Bytes(w, r[8])) /\ Log([o |-> "fill", i |-> o, off |-> off, n |-> c * w, p |-> Bytes(w, r[8]), r |-> FillRes(o, q)])
(* pitches that a region allows *)
Side(r, n, g) == LET rp == IF r[n] % 3 = 0 THEN 0 ELSE g[1] + ((r[n] \div 3) % 4)
                     row == Pitch(rp, g[1])
                     sp == IF r[n + 1] % 3 = 0 THEN 0 ELSE row * (g[2] + ((r[n + 1] \div 3) % 2))
                 IN [g |-> g, rp |-> rp, sp |-> sp,
                     o |-> IF r[n + 2] % 3 = 0 THEN <<0, 0, 0>> ELSE <<r[n + 2] % 4, (r[n + 2] \div 4) % 3, (r[n + 2] \div 12) % 2>>]
Home(s) == [s EXCEPT !.o = <<0, 0, 0>>]
Fits(s, n) == Inside(Rect(s), n)
HSide(s) == IF Fits(s, HN) THEN s ELSE Home(s)
Mine(s, o, k) == IF Fits(s, objs[o].len) \/ k % 4 = 0 THEN s ELSE Home(s)
RectOp(r) ==
  LET g == IF r[30] % 7 = 0 THEN <<Rng(24, r[2]), Rng(2, r[3]), 1>> ELSE <<Rng(5, r[2]), Rng(4, r[3]), Rng(3, r[4])>>
      o == Nth(Live, r[5]) s == Mine(Side(r, 6, g), o, r[16]) q == Rect(s) t == HSide(Side(r, 9, g)) b == r[12] % 2
      o2 == IF r[13] % 3 = 0 THEN o ELSE Nth(Live, r[13] \div 3)
      t2 == LET x == Mine(Side(r, 9, g), o2, r[17]) IN IF Root(o2) = Root(o) THEN [x EXCEPT !.rp = s.rp, !.sp = s.sp] ELSE x
      q2 == Rect(t2)
  IN CASE r[14] % 3 = 0 -> DoRead(o, q, Rect(t)) /\ Log([o |-> "readr", i |-> o, s |-> s, t |-> t, b |-> b, a |-> Alt(o, q), r |-> ReadRes(o, q)])
       [] r[14] % 3 = 1 -> DoWrite(o, q, Rect(t)) /\ Log([o |-> "writer", i |-> o, s |-> s, t |-> t, b |-> b, a |-> Alt(o, q), r |-> WriteRes(o, q)])
       [] OTHER -> DoCopy(o, q, o2, q2) /\ Log([o |-> "copyr", i |-> o, j |-> o2, s |-> s, t |-> t2, r |-> CopyRes(o, q, o2, q2)])
ZeroOp(r) == \* empty regions and pitches smaller than the region are rejected
  LET z == r[9] % 2 = 0
      g == IF z THEN [[i \in 1..3 |-> Rng(3, r[1 + i])] EXCEPT ![Rng(3, r[5])] = 0] ELSE <<Between(2, 3, r[2]), 2, 2>>
      s == [g |-> g, rp |-> IF z \/ r[10] % 2 = 0 THEN 0 ELSE g[1] - 1, sp |-> IF z \/ r[10] % 2 = 1 THEN 0 ELSE g[1] + 1, o |-> <<0, 0, 0>>]
      t == [g |-> g, rp |-> 0, sp |-> 0, o |-> <<0, 0, 0>>]
      C == {o \in Live : objs[o].acc = "rw" /\ objs[o].len >= 12}
  IN IF C = {} THEN Skip ELSE DoReject /\ Log([o |-> NthSeq(<<"readr", "writer", "copyr">>, r[6]), i |-> Nth(C, r[7]), j |-> Nth(C, r[8]), s |-> IF r[11] % 2 = 0 THEN s ELSE t, t |-> IF r[11] % 2 = 0 THEN t ELSE s, b |-> 1, r |-> InvalidValue])
ViewOp(r) ==
  LET o == Nth(Live, r[2]) k == r[3] % 6 IN
  IF k < 2 /\ Cardinality(Plain) < 5
  THEN LET off == Off(o, r[4], r[5]) n == Cnt(o, off, r[6], r[7]) w == r[8] % 2 = 0
       IN Map(o, off, n, w) /\ Log([o |-> "map", i |-> o, off |-> off, n |-> n, w |-> w, b |-> r[9] % 2, m |-> Len(maps) + 1, a |-> Alt(o, Range1(off, n)), r |-> MapRes(o, off, n, w)])
  ELSE IF k < 4 /\ {m \in Plain : maps[m].w} # {}
  THEN LET m == Nth({x \in Plain : maps[x].w}, r[4]) off == r[5] % maps[m].len n == Rng(maps[m].len - off, r[6])
       IN HostPoke(m, off, Bytes(n, r[7])) /\ Log([o |-> "poke", m |-> m, off |-> off, v |-> Bytes(n, r[7]), r |-> 0])
  ELSE IF k = 4 /\ Plain # {} THEN LET m == Nth(Plain, r[4]) IN Unmap(m) /\ Log([o |-> "unmap", m |-> m, i |-> maps[m].o, r |-> 0])
  ELSE LET b == Nth(Live, r[4]) oa == r[5] % objs[o].len ob == r[6] % objs[b].len
           x == objs[o].len - oa y == objs[b].len - ob n == Rng(IF x < y THEN x ELSE y, r[7])
           d == Shifted(Range1(oa, n), Base(o)) \cap Shifted(Range1(ob, n), Base(b))
       IN IF Root(o) = Root(b) /\ d # {} THEN Skip
          ELSE KernelMove(o, oa, b, ob, n, r[8] % 256) /\ Log([o |-> "kernel", i |-> o, j |-> b, oa |-> oa, ob |-> ob, n |-> n, k |-> r[8] % 256, r |-> 0])
Step(r) ==
  LET p == r[1] % 100 IN
  IF Live = {} \/ p < (IF Focus = "views" THEN 20 ELSE 10) THEN MakeOp(r)
  ELSE IF Focus = "views" THEN (IF p < 75 THEN ViewOp(r) ELSE IF p < 85 THEN RangeOp(r) ELSE IF p < 93 THEN CopyOp(r) ELSE RectOp(r))
  ELSE IF p < 30 THEN RangeOp(r) ELSE IF p < 45 THEN CopyOp(r) ELSE IF p < 60 THEN FillOp(r) ELSE IF p < 93 THEN RectOp(r) ELSE IF p < 96 THEN ZeroOp(r) ELSE ViewOp(r)
Init == objs = <<>> /\ mem = <<>> /\ host = [i \in 1..HN |-> (i * 37) % 256] /\ maps = <<>> /\ h = <<>> /\ step = 0 /\ phase = "run"
Next == /\ step' = step + 1
        /\ \E r \in {Draw(step)} :
           \/ phase = "run" /\ Len(h) < MaxOps /\ step < 3 * MaxOps /\ Step(r) /\ UNCHANGED phase
           \/ phase = "run" /\ (Len(h) >= MaxOps \/ step >= 3 * MaxOps) /\ UNCHANGED gvars /\ phase' = "done"
Emit == phase = "done" => PrintT(<<"T", ToJson([ops |-> h, host |-> [i \in 1..HN |-> (i * 37) % 256]])>>)
=============================================================================
