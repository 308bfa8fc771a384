-------------------------------- MODULE ImgGen --------------------------------
(* Images as byte arrays with a shape: which bytes host transfers of pixels    *)
(* move. An image is an object of Mem with the fields                          *)
(*   ty (1D, 1DB, 1DA, 2D, 2DA, 3D), w, h, d, n (layers), f (format), ps       *)
EXTENDS Mem, Fmt, Json
CONSTANTS MaxOps
VARIABLES h, step, phase
HN == 400
gvars == <<vars, h>>
Skip == UNCHANGED gvars
Delta == [d |-> LET C == {i \in 1..Len(mem') : objs'[i].par = 0 /\ (i > Len(mem) \/ mem'[i] # mem[i])} s == SetToSeq(C)
                IN [k \in 1..Len(s) |-> [i |-> s[k], v |-> mem'[s[k]]]],
          hd |-> IF host' = host THEN <<>> ELSE host']
Log(x) == h' = Append(h, x @@ Delta)
Bytes(n, s) == [i \in 1..n |-> (s * 31 + i * (7 + 2 * (s % 50)) + (i * i * (s % 7))) % 256]
IsImg(o) == objs[o].ty # "buf"
Imgs == {o \in Live : IsImg(o)}
Bufs == {o \in Live : ~IsImg(o)}
(* ---- shapes ---- *)
Dims(ty, w, y, z) == CASE ty \in {"1D", "1DB"} -> <<w, 1, 1>> [] ty \in {"1DA", "2D"} -> <<w, y, 1>> [] OTHER -> <<w, y, z>>
Dim(o) == Dims(objs[o].ty, objs[o].w, objs[o].y, objs[o].z)
PS(o) == PixSize(objs[o].f)
RegionOk(o, org, reg) == \A i \in 1..3 : reg[i] > 0 /\ org[i] >= 0 /\ org[i] + reg[i] <= Dim(o)[i]
Sel(o, org, reg) == Rect([o |-> <<org[1] * PS(o), org[2], org[3]>>, g |-> <<reg[1] * PS(o), reg[2], reg[3]>>, rp |-> Dim(o)[1] * PS(o), sp |-> Dim(o)[1] * Dim(o)[2] * PS(o)])
(* packed bytes of a region with the pitches of the host's copy *)
HSel(o, reg, rp, sp, base) == LET q == Rect([o |-> <<0, 0, 0>>, g |-> <<reg[1] * PS(o), reg[2], reg[3]>>, rp |-> rp, sp |-> sp]) IN [i \in 1..Len(q) |-> q[i] + base]
Obj(ty, w, y, z, f, par, off, len, acc) == [live |-> TRUE, par |-> par, off |-> off, len |-> len, acc |-> acc, use |-> FALSE, ty |-> ty, w |-> w, y |-> y, z |-> z, f |-> f]
Add(o, bs) == objs' = Append(objs, o) /\ mem' = Append(mem, bs) /\ UNCHANGED <<host, maps>>
(* what queries report: width, height, depth, layers, bytes per pixel, row and slice pitch *)
Info(ty, w, y, z, f) == LET p == PixSize(f) IN
  <<w, IF ty \in {"2D", "2DA", "3D"} THEN y ELSE 0, IF ty = "3D" THEN z ELSE 0, CASE ty = "1DA" -> y [] ty = "2DA" -> z [] OTHER -> 0,
    p, w * p, CASE ty = "1DA" -> w * p [] ty \in {"2DA", "3D"} -> w * y * p [] OTHER -> 0>>
Acc(k) == LET x == k % 24 IN IF x = 0 THEN "ro" ELSE IF x = 1 THEN "wo" ELSE IF x = 2 THEN "no" ELSE "rw"
MakeBuf(r) == LET n == Between(40, 120, r[3]) bs == Bytes(n, r[4]) IN Add(Obj("buf", 0, 0, 0, <<"R", "u8">>, 0, 0, n, "rw"), bs) /\ Log([o |-> "buf", n |-> n, v |-> bs, r |-> 0])
MakeImg(r) ==
  LET ty == NthSeq(<<"1D", "1DA", "2D", "2D", "2DA", "3D">>, r[3]) f == Fmt(r[4], r[5])
      w == Rng(IF ty = "1D" THEN 12 ELSE 6, r[6]) y == IF ty = "1D" THEN 1 ELSE Rng(4, r[7]) z == IF ty \in {"2DA", "3D"} THEN Rng(3, r[8]) ELSE 1
      len == w * y * z * PixSize(f)
      how == NthSeq(<<"plain", "copy", "copyp", "use">>, r[9])
      row == w * PixSize(f) rp == IF how = "copyp" /\ ty # "1D" /\ ty # "1DA" THEN row + (r[10] % 3) * PixSize(f) ELSE row
      sp == rp * y + (IF how = "copyp" /\ z > 1 THEN rp * (r[11] % 2) ELSE 0)
      src == Bytes(sp * z, r[12])
      q == Rect([o |-> <<0, 0, 0>>, g |-> <<row, y, z>>, rp |-> rp, sp |-> sp])
  IN IF len > 250 THEN Skip
     ELSE Add(Obj(ty, w, y, z, f, 0, 0, len, Acc(r[13])), Get(src, q, 0))
          /\ Log([o |-> "img", ty |-> ty, w |-> w, y |-> y, z |-> z, f |-> f, how |-> how, rp |-> rp, sp |-> sp, src |-> src, acc |-> Acc(r[13]), len |-> len, info |-> Info(ty, w, y, z, f), r |-> 0])
MakeOver(r) ==
  LET b == Nth(Bufs, r[3]) f == Fmt(r[4], r[5]) m == objs[b].len \div PixSize(f) w == IF r[6] % 8 = 0 THEN m + 1 ELSE Rng(m, r[7]) ok == w * PixSize(f) <= objs[b].len
  IN /\ IF ok THEN Add(Obj("1DB", w, 1, 1, f, b, 0, w * PixSize(f), "rw"), <<>>) ELSE UNCHANGED vars
     /\ Log([o |-> "over", p |-> b, w |-> w, f |-> f, info |-> Info("1DB", w, 1, 1, f), r |-> IF ok THEN 0 ELSE -1])
MakeOp(r) ==
  IF Bufs = {} \/ (Cardinality(Bufs) < 2 /\ r[2] % 5 = 0) THEN MakeBuf(r)
  ELSE IF Imgs = {} \/ (Cardinality(Imgs) < 5 /\ r[2] % 4 > 0) THEN (IF r[2] % 4 = 1 /\ r[14] % 2 = 0 THEN MakeOver(r) ELSE MakeImg(r))
  ELSE LET C == {o \in Imgs : Mapped(o) = {}} IN IF C = {} THEN Skip ELSE LET o == Nth(C, r[7]) IN Release(o) /\ Log([o |-> "free", i |-> o, r |-> 0])
(* a region of image o: mostly inside; sometimes too large in one dimension, empty, or wrapping *)
Origin(o, r, k) == [i \in 1..3 |-> r[k + i] % Dim(o)[i]]
Region(o, org, r, k) == [i \in 1..3 |-> IF r[k + i] % 3 = 0 THEN Dim(o)[i] - org[i] ELSE Rng(Dim(o)[i] - org[i], r[k + i])]
Spoil(org, reg, k, j) == LET i == Rng(3, j) IN
  CASE k % 20 = 0 -> <<org, [reg EXCEPT ![i] = 0]>> [] k % 20 = 1 -> <<org, [reg EXCEPT ![i] = @ + 1 + (j % 2)]>>
    [] k % 20 = 2 -> <<[org EXCEPT ![i] = @ + 1], reg>> [] k % 20 = 3 -> <<[org EXCEPT ![i] = -1 - (j % 2)], [reg EXCEPT ![i] = 2]>> [] OTHER -> <<org, reg>>
Pick(o, r, k) == LET org == Origin(o, r, k) reg == Region(o, org, r, k + 3) IN Spoil(org, reg, r[k + 7], r[k + 8])
Res(o, ok, may) == IF ~may THEN InvalidOperation ELSE IF ~ok THEN InvalidValue ELSE OK
Alt(ok) == IF ok THEN 0 ELSE InvalidValue
HostOp(r) ==
  LET o == Nth(Imgs, r[2]) p == Pick(o, r, 3) org == p[1] reg == p[2] ok == RegionOk(o, org, reg)
      rp == IF r[14] % 2 = 0 THEN 0 ELSE reg[1] * PS(o) + ((r[14] \div 2) % 3)
      row == Pitch(rp, reg[1] * PS(o))
      can == objs[o].ty \in {"2DA", "3D"}
      sp == IF ~can \/ r[15] % 2 = 0 THEN 0 ELSE row * (reg[2] + ((r[15] \div 2) % 2))
      ho == r[16] % 40 b == r[17] % 2
      q == Sel(o, org, reg) qh == HSel(o, reg, rp, sp, ho)
      x == [i |-> o, org |-> org, reg |-> reg, rp |-> rp, sp |-> sp, ho |-> ho, b |-> b, a |-> Alt(ok)]
  IN IF ok /\ ~Inside(qh, HN) THEN Skip
     ELSE IF r[18] % 2 = 0
     THEN /\ host' = (IF ok /\ MayRead(o) THEN Put(host, qh, 0, Get(mem[Root(o)], q, Base(o))) ELSE host) /\ UNCHANGED <<objs, mem, maps>>
          /\ Log([o |-> "read", r |-> Res(o, ok, MayRead(o))] @@ x)
     ELSE /\ mem' = (IF ok /\ MayWrite(o) THEN [mem EXCEPT ![Root(o)] = Put(@, q, Base(o), Get(host, qh, 0))] ELSE mem) /\ UNCHANGED <<objs, host, maps>>
          /\ Log([o |-> "write", r |-> Res(o, ok, MayWrite(o))] @@ x)
CopyOp(r) ==
  LET a == Nth(Imgs, r[2])
      same == {o \in Imgs : objs[o].f = objs[a].f}
      b == IF r[3] % 7 = 0 THEN Nth(Imgs, r[4]) ELSE Nth(same, r[4])
      p == Pick(a, r, 5) oa == p[1]
      ob0 == Origin(b, r, 14)
      reg0 == [i \in 1..3 |-> IF p[2][i] > Dim(b)[i] - ob0[i] /\ r[18] % 5 > 0 THEN Dim(b)[i] - ob0[i] ELSE p[2][i]]
      ob == ob0 reg == IF p[2][1] = 0 \/ p[2][2] = 0 \/ p[2][3] = 0 THEN p[2] ELSE reg0
      ok == RegionOk(a, oa, reg) /\ RegionOk(b, ob, reg)
      qa == Sel(a, oa, reg) qb == Sel(b, ob, reg)
      over == ok /\ Root(a) = Root(b) /\ Shifted(qa, Base(a)) \cap Shifted(qb, Base(b)) # {}
      res == IF objs[a].f # objs[b].f THEN -9 ELSE IF ~ok THEN InvalidValue ELSE IF over THEN Overlap ELSE OK
  IN /\ mem' = (IF res = OK THEN [mem EXCEPT ![Root(b)] = Put(@, qb, Base(b), Get(mem[Root(a)], qa, Base(a)))] ELSE mem) /\ UNCHANGED <<objs, host, maps>>
     /\ Log([o |-> "copy", i |-> a, j |-> b, oa |-> oa, ob |-> ob, reg |-> reg, r |-> res])
BufOp(r) ==
  LET o == Nth(Imgs, r[2]) b == Nth(Bufs, r[3]) p == Pick(o, r, 4) org == p[1] reg == p[2]
      n == reg[1] * reg[2] * reg[3] * PS(o)
      off == IF r[14] % 9 = 0 THEN objs[b].len - (r[15] % 9) ELSE IF n > 0 /\ n < objs[b].len THEN r[15] % (objs[b].len - n) ELSE 0
      ok == RegionOk(o, org, reg) /\ off + n <= objs[b].len
      q == Sel(o, org, reg) qb == Range1(off, n)
      over == ok /\ Root(o) = b /\ Shifted(q, Base(o)) \cap SetOf(qb) # {}
      res == IF ~ok THEN InvalidValue ELSE IF over THEN Overlap ELSE OK
      to == r[16] % 2 = 0
  IN /\ mem' = (IF res # OK THEN mem ELSE IF to THEN [mem EXCEPT ![b] = Put(@, qb, 0, Get(mem[Root(o)], q, Base(o)))]
                ELSE [mem EXCEPT ![Root(o)] = Put(@, q, Base(o), Get(mem[b], qb, 0))]) /\ UNCHANGED <<objs, host, maps>>
     /\ Log([o |-> IF to THEN "tobuf" ELSE "tobufrev", i |-> o, j |-> b, org |-> org, reg |-> reg, off |-> off, r |-> res])
FillOp(r) ==
  LET o == Nth(Imgs, r[2]) p == Pick(o, r, 3) org == p[1] reg == p[2] ok == RegionOk(o, org, reg) t == objs[o].f[2]
      c == [i \in 1..4 |-> CASE t \in {"sn8", "un8", "sn16", "un16"} -> (r[13 + i] % 11) - 4
                             [] t \in {"f32", "f16"} -> (r[13 + i] % 401) - 200
                             [] t \in {"u8", "u16", "u32"} -> (IF r[18] % 4 = 0 THEN r[13 + i] ELSE r[13 + i] % 256)
                             [] OTHER -> (IF r[18] % 4 = 0 THEN (r[13 + i] - 50000) ELSE (r[13 + i] % 256) - 128)]
      q == Sel(o, org, reg) v == Color(objs[o].f, c)
  IN /\ mem' = (IF ok THEN [mem EXCEPT ![Root(o)] = Put(@, q, Base(o), [i \in 1..Len(q) |-> v[1 + ((i - 1) % PS(o))]])] ELSE mem) /\ UNCHANGED <<objs, host, maps>>
     /\ Log([o |-> "fill", i |-> o, org |-> org, reg |-> reg, c |-> c, t |-> t, r |-> Alt(ok)])
MapOp(r) ==
  LET L == {m \in 1..Len(maps) : maps[m].live} k == r[2] % 5 IN
  IF (k < 2 /\ Cardinality(L) < 4) \/ L = {}
  THEN LET o == Nth(Imgs, r[3]) p == Pick(o, r, 4) org == p[1] reg == p[2] ok == RegionOk(o, org, reg) w == r[14] % 2 = 0
           res == Res(o, ok, IF w THEN MayWrite(o) ELSE MayRead(o))
           q == Sel(o, org, reg)
       IN /\ maps' = (IF res = OK THEN Append(maps, [live |-> TRUE, o |-> o, off |-> 0, len |-> 0, w |-> w, q |-> q, reg |-> reg]) ELSE maps) /\ UNCHANGED <<objs, mem, host>>
          /\ Log([o |-> "map", i |-> o, org |-> org, reg |-> reg, w |-> w, m |-> Len(maps) + 1, b |-> r[15] % 2, a |-> Alt(ok), r |-> res,
                  row |-> Dim(o)[1] * PS(o), slice |-> IF objs[o].ty = "1DA" THEN Dim(o)[1] * PS(o) ELSE IF objs[o].ty \in {"2DA", "3D"} THEN Dim(o)[1] * Dim(o)[2] * PS(o) ELSE 0])
  ELSE LET m == Nth(L, r[3]) IN
       IF k < 4 /\ maps[m].w
       THEN LET o == maps[m].o v == Bytes(Len(maps[m].q), r[4])      \* every pixel of the region, through the pointer and its pitches
            IN /\ mem' = [mem EXCEPT ![Root(o)] = Put(@, maps[m].q, Base(o), v)] /\ UNCHANGED <<objs, host, maps>>
               /\ Log([o |-> "poke", m |-> m, v |-> v, row |-> maps[m].reg[1] * PS(o), reg |-> maps[m].reg, r |-> 0])
       ELSE Unmap(m) /\ Log([o |-> "unmap", m |-> m, i |-> maps[m].o, r |-> 0])
Step(r) ==
  LET p == r[1] % 100 IN
  IF Imgs = {} \/ Bufs = {} \/ p < 14 THEN MakeOp(r)
  ELSE IF p < 44 THEN HostOp(r) ELSE IF p < 58 THEN CopyOp(r) ELSE IF p < 70 THEN BufOp(r) ELSE IF p < 84 THEN FillOp(r) ELSE MapOp(r)
Init == objs = <<>> /\ mem = <<>> /\ host = [i \in 1..HN |-> (i * 37) % 256] /\ maps = <<>> /\ h = <<>> /\ step = 0 /\ phase = "run"
Next == /\ step' = step + 1
        /\ \E r \in {Draw(step)} :
           \/ phase = "run" /\ Len(h) < MaxOps /\ step < 3 * MaxOps /\ Step(r) /\ UNCHANGED phase
           \/ phase = "run" /\ (Len(h) >= MaxOps \/ step >= 3 * MaxOps) /\ UNCHANGED gvars /\ phase' = "done"
Emit == phase = "done" => PrintT(<<"T", ToJson([ops |-> h, host |-> [i \in 1..HN |-> (i * 37) % 256]])>>)
=============================================================================
