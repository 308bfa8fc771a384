--------------------------------- MODULE SimFile --------------------------------
(* Simulation files: a kernel, an NDRange, descriptions of the arguments; what *)
(* the kernel leaves in the buffers marked for dumping and how it is printed.  *)
(* Integer buffers are sequences of bytes, floating-point buffers sequences of *)
(* values in quarters.                                                         *)
EXTENDS Printf
Types == <<"char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "float", "double">>
Size(t) == CASE t \in {"char", "uchar"} -> 1 [] t \in {"short", "ushort"} -> 2 [] t \in {"int", "uint", "float"} -> 4 [] OTHER -> 8
Signed(t) == t \in {"char", "short", "int", "long"}
IsFlt(t) == t \in {"float", "double"}
(* an integer as n bytes *)
Bytes(x, n) == TLCEval([i \in 1..n |-> IF i <= 4 THEN (x \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 256 ELSE IF i = 3 THEN 65536 ELSE 16777216)) % 256 ELSE IF x < 0 THEN 255 ELSE 0])
AddB(a, b) == FoldLeft(LAMBDA x, i : <<(x[1] + a[i] + b[i]) \div 256, Append(x[2], (x[1] + a[i] + b[i]) % 256)>>, <<0, <<>>>>, [i \in 1..Len(a) |-> i])[2]
Flat(es) == FoldLeft(LAMBDA x, e : x \o e, <<>>, es)
(* An argument: [q: "g" global, "c" constant, "l" local, "p" private; t: its   *)
(* type (vec elements of it if private); ft: the type its description uses;    *)
(* expl: is that written down?; size; init: [k: data | fill | range | none |   *)
(* null, ...]; dump, hex, ro, wo]                                              *)
Buffer(a) == a.q \in {"g", "c"}
Elems(a) == a.size \div Size(a.ft)
(* the elements that the description gives, of type ft *)
Described(a) ==
  CASE a.init.k = "data" -> a.init.v
    [] a.init.k = "fill" -> [i \in 1..Elems(a) |-> a.init.v]
    [] a.init.k = "range" -> [i \in 1..Elems(a) |-> LET x == a.init.s + (i - 1) * a.init.i IN IF IsFlt(a.ft) THEN x ELSE Bytes(x, Size(a.ft))]
    [] OTHER -> <<>>
Initial(a) == IF a.init.k \in {"none", "null"} \/ a.q = "l" THEN <<>> ELSE IF IsFlt(a.ft) THEN Described(a) ELSE Flat(Described(a))
(* element i (from 0) of a buffer, seen with type t *)
Elem(m, t, i) == IF IsFlt(t) THEN m[i + 1] ELSE SubSeq(m, i * Size(t) + 1, (i + 1) * Size(t))
Put(m, t, i, v) == IF IsFlt(t) THEN [m EXCEPT ![i + 1] = v] ELSE SubSeq(m, 1, i * Size(t)) \o v \o SubSeq(m, (i + 1) * Size(t) + 1, Len(m))
Plus(t, x, y) == IF IsFlt(t) THEN x + y ELSE AddB(x, y)
(* the integer c as a value of type t *)
Const(t, c) == IF IsFlt(t) THEN 4 * c ELSE Bytes(c, Size(t))
Conv2(v, t, u) == IF IsFlt(u) THEN v ELSE Ext(v, Size(u), Signed(t))       \* between integer types, between floating-point types
Len2(a) == a.size \div Size(a.t)
(* One statement, item id: dst[id] = (set ? 0 : dst[id]) + c + src. src: 0, or the   *)
(* number of an argument: element i of a private vector, element id modulo     *)
(* their number of a buffer, the first element of local memory, which is 5 + c *)
Source(F, u, c, id) ==
  LET a == F.args[u.src] t == F.args[u.dst].t IN
  IF u.src = 0 THEN Const(t, 0)
  ELSE CASE a.q = "p" -> Conv2(Elem(Initial(a), a.t, (u.i - 1) % Len2(a)), a.t, t)
         [] a.q = "l" -> Conv2(Const(a.t, 5 + c), a.t, t)
         [] OTHER -> Conv2(Elem(Initial(a), a.t, id % Len2(a)), a.t, t)
Items(F) == F.n[1] * F.n[2] * F.n[3]
Update(F, u, c, m) ==
  LET a == F.args[u.dst] k == IF Items(F) < Len2(a) THEN Items(F) ELSE Len2(a) IN
  FoldLeft(LAMBDA x, id : TLCEval(Put(x, a.t, id, Plus(a.t, IF u.set THEN Const(a.t, 0) ELSE Elem(x, a.t, id), Plus(a.t, Const(a.t, c), Source(F, u, c, id))))), m, [i \in 1..k |-> i - 1])
Final(F, j) == FoldLeft(LAMBDA m, u : IF u.dst = j THEN Update(F, u, F.c, m) ELSE m, Initial(F.args[j]), F.body)
(* ---- output ---- *)
Dec(bs, sg) == LET neg == sg /\ bs[Len(bs)] >= 128 d == Convert(IF neg THEN Negate(bs) ELSE bs, 256, 10) IN (IF neg THEN "-" ELSE "") \o (IF d = <<>> THEN "0" ELSE Str(d, Lower))
HexStr(bs) == LET d == Convert(bs, 256, 16) IN "0x" \o Str(Zeros(2 * Len(bs) - Len(d)) \o d, Lower)
Quarters(q) == LET a == Abs(q) f == a % 4 IN (IF q < 0 THEN "-" ELSE "") \o ToString(a \div 4) \o (CASE f = 0 -> "" [] f = 1 -> ".25" [] f = 2 -> ".5" [] f = 3 -> ".75")
Show(a, v) == IF IsFlt(a.ft) THEN Quarters(v) ELSE IF a.hex THEN HexStr(v) ELSE Dec(v, Signed(a.ft))
Dump(F, j) == LET a == F.args[j] m == Final(F, j) IN [name |-> a.name, v |-> [i \in 1..Elems(a) |-> Show(a, Elem(m, a.ft, i - 1))]]
Dumps(F) == FoldLeft(LAMBDA s, j : IF F.args[j].dump THEN Append(s, Dump(F, j)) ELSE s, <<>>, [j \in 1..Len(F.args) |-> j])
(* ---- what makes a description invalid ---- *)
Bad(F, j) == LET a == F.args[j] IN
  \/ a.size % Size(a.ft) # 0
  \/ a.q = "p" /\ a.size # a.vec * Size(a.t)
  \/ a.init.k = "data" /\ Len(a.init.v) # Elems(a)
  \/ a.ro /\ (a.wo \/ a.q # "g")
  \/ a.wo /\ a.q # "g"
  \/ a.dump /\ (~Buffer(a) \/ a.init.k = "null")
  \/ a.init.k \in {"none", "null"} /\ ~Buffer(a)
Valid(F) == /\ \A j \in 1..Len(F.args) : ~Bad(F, j)
            /\ \A d \in 1..3 : F.n[d] % F.l[d] = 0
================================================================================
