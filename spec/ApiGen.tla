--------------------------------- MODULE ApiGen --------------------------------
(* Random histories of accepted and rejected calls in two contexts, and what   *)
(* is in memory after each.                                                    *)
EXTENDS Api, Rnd, Json
CONSTANTS MaxOps
VARIABLES ops, st, phase, step
vars == <<ops, st, phase, step>>
(* each context: two buffers and two images of 64 bytes, an argument of a kernel *)
Fill64(v) == [i \in 1..64 |-> v]
State0(c) == [b |-> Fill64(10 * c + 1), b2 |-> Fill64(10 * c + 2), img |-> Fill64(10 * c + 3), img2 |-> Fill64(10 * c + 4), val |-> 100 + c]
Idx(f) == CHOOSE i \in 1..Len(Table) : Table[i].f = f
Data(v, n) == [i \in 1..n |-> (v + i) % 256]
Same(v, n) == [i \in 1..n |-> v]
U32(v) == <<v, 0, 0, 0>>
Rows(s, o, r) == [i \in 1..8 |-> s[o + 1 + ((i - 1) % 4) + r * ((i - 1) \div 4)]]
PutRows(s, o, r, d) == Put(Put(s, o, SubSeq(d, 1, 4)), o + r, SubSeq(d, 5, 8))
(* effect of an accepted call: new state and data given to the application *)
R(s, out) == [s |-> s, out |-> out]
Eff(f, s, a) ==
  CASE f = "clEnqueueWriteBuffer" -> R([s EXCEPT !.b = Put(@, a.o, Data(a.v, a.n))], <<>>)
    [] f = "clEnqueueReadBuffer" -> R(s, SubSeq(s.b, a.o + 1, a.o + a.n))
    [] f = "clEnqueueFillBuffer" -> R([s EXCEPT !.b = Put(@, a.o - (a.o % 4), [i \in 1..(a.n - (a.n % 4)) |-> (a.v + ((i - 1) % 4)) % 256])], <<>>)
    [] f = "clEnqueueCopyBuffer" -> R([s EXCEPT !.b2 = Put(@, a.o2, SubSeq(s.b, a.o + 1, a.o + a.n))], <<>>)
    [] f = "clEnqueueWriteBufferRect" -> R([s EXCEPT !.b = PutRows(@, a.ro, 16, Data(a.v, 8))], <<>>)
    [] f = "clEnqueueReadBufferRect" -> R(s, Rows(s.b, a.ro, 16))
    [] f = "clEnqueueCopyBufferRect" -> R([s EXCEPT !.b2 = PutRows(@, a.ro2, 16, Rows(s.b, a.ro, 16))], <<>>)
    [] f = "clEnqueueFillImage" -> R([s EXCEPT !.img = Same(a.v, 64)], <<>>)
    [] f = "clEnqueueWriteImage" -> R([s EXCEPT !.img = Data(a.v, 64)], <<>>)
    [] f = "clEnqueueReadImage" -> R(s, s.img)
    [] f = "clEnqueueCopyImage" -> R([s EXCEPT !.img2 = s.img], <<>>)
    [] f = "clEnqueueCopyImageToBuffer" -> R([s EXCEPT !.b2 = s.img], <<>>)
    [] f = "clEnqueueCopyBufferToImage" -> R([s EXCEPT !.img = s.b2], <<>>)
    [] f = "clEnqueueMapBuffer" -> R(s, SubSeq(s.b, a.o + 1, a.o + a.n))
    [] f = "clEnqueueMapImage" -> R(s, s.img)
    [] f = "clSetKernelArg" -> R([s EXCEPT !.val = a.v], <<>>)
    [] f = "clEnqueueNDRangeKernel" -> R([s EXCEPT !.b2 = Put(@, 0, U32(s.val) \o U32(s.val) \o U32(s.val) \o U32(s.val))], <<>>)
    [] f = "clEnqueueTask" -> R([s EXCEPT !.b2 = Put(@, 0, U32(s.val))], <<>>)
    [] OTHER -> R(s, <<>>)
Active == <<"clEnqueueWriteBuffer", "clEnqueueReadBuffer", "clEnqueueFillBuffer", "clEnqueueCopyBuffer", "clEnqueueWriteBufferRect", "clEnqueueReadBufferRect", "clEnqueueCopyBufferRect", "clEnqueueFillImage", "clEnqueueWriteImage", "clEnqueueReadImage", "clEnqueueCopyImage", "clEnqueueCopyImageToBuffer",
            "clEnqueueCopyBufferToImage", "clEnqueueMapBuffer", "clEnqueueMapImage", "clSetKernelArg", "clSetKernelArg", "clEnqueueNDRangeKernel", "clEnqueueTask">>
Arg(r) == LET n == Rng(24, r[11]) o == r[12] % (65 - n) IN [o |-> o, n |-> IF n - (n % 4) = 0 THEN n + 3 ELSE n, o2 |-> r[13] % 30, v |-> r[14] % 256, ro |-> r[15] % 44, ro2 |-> r[16] % 44, w |-> r[17] % 3, bl |-> r[18] % 2, ev |-> r[19] % 2, k |-> r[20] % 10000]
Fix(a) == IF a.o + a.n > 64 THEN [a EXCEPT !.o = 64 - a.n] ELSE a
Init == ops = <<>> /\ st = <<State0(1), State0(2)>> /\ phase = "run" /\ step = 0
One(r) ==
  LET kind == IF Chance(25, r[1]) THEN "eff" ELSE IF Chance(18, r[2]) THEN "ok" ELSE "bad"
      f == IF kind = "eff" THEN Idx(NthSeq(Active, r[3])) ELSE Rng(Len(Table), r[3])
      ds == Table[f].ds
      i == IF Len(ds) = 0 THEN 0 ELSE Rng(Len(ds), r[4]) j == IF Len(ds) = 0 THEN 0 ELSE Rng(Len(ds), r[5])
      S == IF kind # "bad" \/ Len(ds) = 0 THEN {} ELSE IF Chance(50, r[6]) /\ Separate({i, j}, ds) THEN {i, j} ELSE {i}
      c == Rng(2, r[7]) a == Fix(Arg(r)) name == Table[f].f
  IN IF S = {} /\ name \in {"clCreateSubDevices", "clCreateProgramWithBuiltInKernels"} THEN UNCHANGED <<ops, st>>      \* never accepted
     ELSE \E e \in {IF S = {} THEN TLCEval(Eff(name, st[c], a)) ELSE R(st[c], <<>>)} :
            /\ st' = [st EXCEPT ![c] = e.s]
            /\ ops' = Append(ops, [f |-> name, c |-> c, a |-> a, ds |-> SetToSeq({ds[x].d : x \in S}),
                                   x |-> [codes |-> SetToSeq(Codes(ds, S)), told |-> SetToSeq(Notices(ds, S)), out |-> e.out,
                                          new |-> SetToSeq({<<m, e.s[m]>> : m \in {y \in {"b", "b2", "img", "img2"} : e.s[y] # st[c][y]}})]])
Next == step' = step + 1 /\ \E r \in {Draw(step)} :
          \/ phase = "run" /\ Len(ops) < MaxOps /\ One(r) /\ phase' = "run"
          \/ phase = "run" /\ Len(ops) = MaxOps /\ phase' = "done" /\ UNCHANGED <<ops, st>>
Emit == phase = "done" => PrintT(<<"T", ToJson([ops |-> ops])>>)
================================================================================
