--------------------------------- MODULE Mem ---------------------------------
(* Buffers, sub-buffers, mapped pointers and host memory: which bytes every  *)
(* transfer moves, and which requests are rejected.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES objs,   \* buffer objects: [live, par (0: root), off, len, acc (host access), use (storage is host memory)]
          mem,    \* contents of the root objects
          host,   \* the application's own memory
          maps    \* mapped pointers: [live, o, off, len, w]
vars == <<objs, mem, host, maps>>
Root(o) == IF objs[o].par = 0 THEN o ELSE objs[o].par
Base(o) == IF objs[o].par = 0 THEN 0 ELSE objs[o].off
Live == {o \in 1..Len(objs) : objs[o].live}
(* the bytes of an object as seen through it *)
View(o) == SubSeq(mem[Root(o)], Base(o) + 1, Base(o) + objs[o].len)
MapView(m) == LET o == maps[m].o IN SubSeq(mem[Root(o)], Base(o) + maps[m].off + 1, Base(o) + maps[m].off + maps[m].len)

(* ---- selections: the linear byte numbers a request names, in order ---- *)
Range1(off, n) == [i \in 1..n |-> off + i - 1]
Pitch(p, d) == IF p = 0 THEN d ELSE p
RP(s) == Pitch(s.rp, s.g[1])
SP(s) == Pitch(s.sp, s.g[2] * RP(s))
(* s: [o: origin, g: region, rp, sp] *)
Rect(s) == TLCEval([i \in 1..(s.g[1] * s.g[2] * s.g[3]) |->
              LET x == (i - 1) % s.g[1] y == ((i - 1) \div s.g[1]) % s.g[2] z == (i - 1) \div (s.g[1] * s.g[2])
              IN (s.o[3] + z) * SP(s) + (s.o[2] + y) * RP(s) + s.o[1] + x])
SetOf(q) == {q[i] : i \in 1..Len(q)}
Inside(q, n) == \A i \in 1..Len(q) : q[i] >= 0 /\ q[i] < n
(* bytes src (a sequence of values) written to the linear positions q of d *)
RECURSIVE PutFrom(_, _, _, _, _)
PutFrom(d, q, b, src, j) == IF j > Len(q) THEN d ELSE PutFrom([d EXCEPT ![q[j] + b + 1] = src[j]], q, b, src, j + 1)
Put(d, q, b, src) == TLCEval(PutFrom(TLCEval(d), TLCEval(q), b, TLCEval(src), 1))
Get(d, q, b) == LET e == TLCEval(d) p == TLCEval(q) IN TLCEval([i \in 1..Len(p) |-> e[p[i] + b + 1]])

OK == 0
InvalidValue == -30
InvalidOperation == -59
Overlap == -8
MayRead(o) == objs[o].acc \in {"rw", "ro"}
MayWrite(o) == objs[o].acc \in {"rw", "wo"}

(* ---- results ---- *)
ReadRes(o, q) == IF ~MayRead(o) THEN InvalidOperation ELSE IF ~Inside(q, objs[o].len) THEN InvalidValue ELSE OK
WriteRes(o, q) == IF ~MayWrite(o) THEN InvalidOperation ELSE IF ~Inside(q, objs[o].len) THEN InvalidValue ELSE OK
FillRes(o, q) == IF ~Inside(q, objs[o].len) THEN InvalidValue ELSE OK
Shifted(q, b) == {q[i] + b : i \in 1..Len(q)}
CopyRes(a, qa, b, qb) ==
  IF ~Inside(qa, objs[a].len) \/ ~Inside(qb, objs[b].len) THEN InvalidValue
  ELSE IF Root(a) = Root(b) /\ Shifted(qa, Base(a)) \cap Shifted(qb, Base(b)) # {} THEN Overlap ELSE OK
(* a request that fits 2^64-wide arithmetic but not its object is given a negative offset *)

(* ---- transfers (qh: positions in host memory) ---- *)
DoRead(o, q, qh) == /\ host' = (IF ReadRes(o, q) = OK THEN Put(host, qh, 0, Get(mem[Root(o)], q, Base(o))) ELSE host)
                    /\ UNCHANGED <<objs, mem, maps>>
DoWrite(o, q, qh) == /\ mem' = (IF WriteRes(o, q) = OK THEN [mem EXCEPT ![Root(o)] = Put(@, q, Base(o), Get(host, qh, 0))] ELSE mem)
                     /\ UNCHANGED <<objs, host, maps>>
DoCopy(a, qa, b, qb) == /\ mem' = (IF CopyRes(a, qa, b, qb) = OK THEN [mem EXCEPT ![Root(b)] = Put(@, qb, Base(b), Get(mem[Root(a)], qa, Base(a)))] ELSE mem)
                        /\ UNCHANGED <<objs, host, maps>>
DoFill(o, q, pat) == /\ mem' = (IF FillRes(o, q) = OK THEN [mem EXCEPT ![Root(o)] = Put(@, q, Base(o), [i \in 1..Len(q) |-> pat[1 + ((i - 1) % Len(pat))]])] ELSE mem)
                     /\ UNCHANGED <<objs, host, maps>>
DoReject == UNCHANGED vars
(* bytes a host pointer or a kernel writes *)
Poke(o, off, bs) == mem' = [mem EXCEPT ![Root(o)] = Put(@, Range1(off, Len(bs)), Base(o), bs)]
HostPoke(m, off, bs) == Poke(maps[m].o, maps[m].off + off, bs) /\ UNCHANGED <<objs, host, maps>>
KernelMove(a, oa, b, ob, n, k) ==   \* dst[ob+i] = src[oa+i] + k
  Poke(b, ob, [i \in 1..n |-> (mem[Root(a)][Base(a) + oa + i] + k) % 256]) /\ UNCHANGED <<objs, host, maps>>

(* ---- objects and mappings ---- *)
Create(n, bs, acc, use) == /\ objs' = Append(objs, [live |-> TRUE, par |-> 0, off |-> 0, len |-> n, acc |-> acc, use |-> use])
                           /\ mem' = Append(mem, bs) /\ UNCHANGED <<host, maps>>
SubRes(p, off, n) == IF objs[p].par # 0 THEN -38 ELSE IF off < 0 \/ off + n > objs[p].len THEN InvalidValue ELSE IF n = 0 THEN -61 ELSE OK
CreateSub(p, off, n, acc) ==
  /\ IF SubRes(p, off, n) = OK
     THEN /\ objs' = Append(objs, [live |-> TRUE, par |-> p, off |-> off, len |-> n, acc |-> acc, use |-> objs[p].use])
          /\ mem' = Append(mem, <<>>)
     ELSE UNCHANGED <<objs, mem>>
  /\ UNCHANGED <<host, maps>>
Subs(p) == {o \in Live : objs[o].par = p}
Mapped(o) == {m \in 1..Len(maps) : maps[m].live /\ maps[m].o = o}
Release(o) == objs' = [objs EXCEPT ![o].live = FALSE] /\ UNCHANGED <<mem, host, maps>>
MapRes(o, off, n, w) == IF (w /\ ~MayWrite(o)) \/ (~w /\ ~MayRead(o)) THEN InvalidOperation
                        ELSE IF off < 0 \/ off + n > objs[o].len THEN InvalidValue ELSE OK
Map(o, off, n, w) == /\ maps' = (IF MapRes(o, off, n, w) = OK THEN Append(maps, [live |-> TRUE, o |-> o, off |-> off, len |-> n, w |-> w]) ELSE maps)
                     /\ UNCHANGED <<objs, mem, host>>
Unmap(m) == maps' = [maps EXCEPT ![m].live = FALSE] /\ UNCHANGED <<objs, mem, host>>
=============================================================================
