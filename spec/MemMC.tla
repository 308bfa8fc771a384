-------------------------------- MODULE MemMC --------------------------------
(* (1) The arithmetic an implementation uses to check requests (ends of       *)
(* ranges, row against row for overlap) agrees with the selections of Mem for *)
(* all small regions. (2) All short histories of views.                       *)
EXTENDS Mem, TLC
CONSTANT Part
VARIABLE c    \* the case under examination (part 1), the number of steps (part 2)
mvars == <<vars, c>>
Origins == {<<x, y, z>> : x \in 0..2, y \in 0..1, z \in 0..1}
Regions == {<<x, y, z>> : x \in 1..3, y \in 1..2, z \in 1..2}
Empty == objs = <<>> /\ mem = <<>> /\ host = <<>> /\ maps = <<>>
Init1 == /\ Empty
         /\ \E g \in Regions, rpx \in {-1, 0, 1}, spx \in {-1, 0, 1}, o \in Origins, o2 \in Origins, b \in 0..3, n \in {7, 14} :
              LET rp == IF rpx = -1 THEN 0 ELSE g[1] + rpx
                  sp == IF spx = -1 THEN 0 ELSE Pitch(rp, g[1]) * (g[2] + spx)
              IN c = [s |-> [o |-> o, g |-> g, rp |-> rp, sp |-> sp], t |-> [o |-> o2, g |-> g, rp |-> rp, sp |-> sp], b |-> b, n |-> n]
Start(s) == s.o[3] * SP(s) + s.o[2] * RP(s) + s.o[1]
EndOf(s) == Start(s) + (s.g[3] - 1) * SP(s) + (s.g[2] - 1) * RP(s) + s.g[1]
BoundsAgree == Part = 1 => ((EndOf(c.s) <= c.n) <=> Inside(Rect(c.s), c.n))
Min(x, y) == IF x < y THEN x ELSE y
RowsOverlap(s, t, b) ==
  \E y \in 0..(s.g[2] - 1), z \in 0..(s.g[3] - 1), z2 \in 0..(t.g[3] - 1) :
     LET row == Start(s) + z * SP(s) + y * RP(s)
         d == row - (Start(t) + b + z2 * SP(t))
         k == IF d < 0 THEN 0 ELSE d \div RP(t)
     IN \E y2 \in {Min(k, t.g[2] - 1), Min(k + 1, t.g[2] - 1)} : d < y2 * RP(t) + t.g[1] /\ y2 * RP(t) < d + s.g[1]
OverlapAgrees == Part = 1 => (RowsOverlap(c.s, c.t, c.b) <=> (Shifted(Rect(c.s), 0) \cap Shifted(Rect(c.t), c.b) # {}))
Distinct == Part = 1 => Cardinality(SetOf(Rect(c.s))) = Len(Rect(c.s))
(* part 2 *)
MaxSteps == 6
Init2 == Empty /\ c = 0
L == 3
Next2 ==
  /\ c < MaxSteps /\ c' = c + 1
  /\ \/ Len(objs) < 2 /\ Create(L, [i \in 1..L |-> i], "rw", FALSE)
     \/ Len(objs) < 4 /\ \E p \in Live, off \in -1..2, n \in 0..3 : CreateSub(p, off, n, "rw")
     \/ \E o \in Live : Subs(o) = {} /\ Mapped(o) = {} /\ Release(o)
     \/ Len(maps) < 2 /\ \E o \in Live, off \in -1..2, n \in 1..3 : Map(o, off, n, TRUE)
     \/ \E m \in {x \in 1..Len(maps) : maps[x].live} : Unmap(m) \/ HostPoke(m, 0, <<9>>)
     \/ \E a, b \in Live, oa, ob \in 0..2, n \in 1..2 : DoCopy(a, Range1(oa, n), b, Range1(ob, n))
     \/ \E o \in Live, off \in 0..2 : DoFill(o, Range1(off, 2), <<7, 8>>)
Next == IF Part = 1 THEN UNCHANGED mvars ELSE Next2
Init == IF Part = 1 THEN Init1 ELSE Init2
(* views stay inside their objects; a mapping shows what its object shows *)
Contained == Part = 2 => /\ \A o \in Live : /\ Len(View(o)) = objs[o].len
                                            /\ objs[o].par # 0 => objs[o].par \in Live /\ Base(o) >= 0 /\ Base(o) + objs[o].len <= objs[objs[o].par].len
                         /\ \A m \in 1..Len(maps) : maps[m].live => maps[m].o \in Live /\ MapView(m) = SubSeq(View(maps[m].o), maps[m].off + 1, maps[m].off + maps[m].len)
(* only bytes of the named object change, and only one root object per step *)
Local == [][\A i \in 1..Len(mem), j \in 1..Len(mem) : Part = 2 /\ i < j => mem'[i] = mem[i] \/ mem'[j] = mem[j]]_vars
=============================================================================
