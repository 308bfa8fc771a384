------------------------------- MODULE SimFileGen ------------------------------
(* Random simulation files, well-formed or with one defect.                    *)
EXTENDS SimFile, Rnd, Json
CONSTANTS MaxArgs, MaxElems
VARIABLES file, want, phase, step
HH(x) == ((x % 32749) * 65003 + (x \div 32749) * 31 + 12345) % 1000003
Hash(x) == TLCEval(HH(HH(HH(x))))
Kid(x, i) == Hash(x * 37 + i)
SameClass(t, x) == IF IsFlt(t) THEN t ELSE NthSeq(SubSeq(Types, 1, 8), x)
(* an element of type t: bytes, in hexadecimal files not negative *)
Val(t, hex, x) == IF IsFlt(t) THEN (x % 8001) - 4000
                  ELSE LET w == Size(t) k == Kid(x, 1) % 4 IN
                       TLCEval([i \in 1..w |-> LET b == IF k = 0 THEN (IF i = 1 THEN x % 100 ELSE 0) ELSE IF k = 1 THEN 255 - (IF i = 1 THEN Kid(x, 2) % 40 ELSE 0) ELSE Kid(x, 10 + i) % 256 IN IF i = w /\ hex /\ Signed(t) THEN b % 128 ELSE b])
Arg(x, j) ==
  LET q == NthSeq(<<"g", "g", "g", "c", "l", "p", "p">>, Kid(x, 1)) t == NthSeq(Types, Kid(x, 2)) vec == IF q = "p" THEN NthSeq(<<1, 1, 2, 4>>, Kid(x, 3)) ELSE 1
      expl == q # "l" /\ Kid(x, 4) % 3 = 0 ft0 == IF expl THEN SameClass(t, Kid(x, 5)) ELSE t
      ft == IF q = "p" /\ Size(ft0) > vec * Size(t) THEN t ELSE ft0
      unit == IF Size(ft) > Size(t) THEN Size(ft) ELSE Size(t)
      size == IF q = "p" THEN vec * Size(t) ELSE unit * Rng(MaxElems, Kid(x, 6))
      n == size \div Size(ft) hex == ~IsFlt(ft) /\ Kid(x, 7) % 5 = 0
      ik == IF q = "l" THEN "local" ELSE NthSeq(IF q = "p" THEN <<"data", "data", "fill", "range">> ELSE <<"data", "data", "fill", "fill", "range", "range", "none", "null">>, Kid(x, 8))
      neg == ~hex /\ (Signed(ft) \/ IsFlt(ft))
      init == CASE ik = "data" -> [k |-> "data", v |-> TLCEval([i \in 1..n |-> Val(ft, hex, Kid(x, 20 + i))])]
                [] ik = "fill" -> [k |-> "fill", v |-> Val(ft, hex, Kid(x, 20))]
                [] ik = "range" -> LET inc == IF IsFlt(ft) THEN NthSeq(<<1, 2, 4, -3, 8, 10>>, Kid(x, 21)) ELSE IF neg THEN NthSeq(<<1, 1, 2, -1, -3, 5>>, Kid(x, 21)) ELSE NthSeq(<<1, 1, 2, 3>>, Kid(x, 21))
                                   IN [k |-> "range", s |-> IF neg THEN (Kid(x, 22) % 100) - 50 ELSE Kid(x, 22) % 60, i |-> IF Size(ft) = 1 THEN 1 ELSE inc]
                [] OTHER -> [k |-> ik]
      dst == q = "g" /\ ik \notin {"none", "null", "local"} ro == q = "g" /\ Kid(x, 9) % 5 = 0
  IN [name |-> NthSeq(<<"a", "buf", "x", "data", "size", "v", "out", "in">>, j + (Kid(x, 10) % 2)) \o ToString(j), q |-> q, t |-> t, vec |-> vec, ft |-> ft, expl |-> expl \/ ft # t, size |-> IF ik = "null" THEN 0 ELSE size,
      init |-> init, dump |-> (dst /\ Kid(x, 11) % 4 # 0) \/ (q = "c" /\ ik \notin {"none", "null", "local"} /\ Kid(x, 11) % 3 = 0), hex |-> hex, ro |-> ro, wo |-> q = "g" /\ ~ro /\ Kid(x, 12) % 6 = 0]
Dst(a) == a.q = "g" /\ ~a.ro /\ a.init.k \notin {"none", "null", "local"}
Src(a, t) == (a.q \in {"p", "l"} \/ (Buffer(a) /\ ~a.wo /\ ~Dst(a) /\ a.init.k \notin {"none", "null", "local"})) /\ (IsFlt(a.t) <=> IsFlt(t))
Stmts(args, x) == FoldLeft(LAMBDA s, j : IF ~Dst(args[j]) THEN s ELSE
                     LET S == {0} \cup {k \in 1..Len(args) : Src(args[k], args[j].t)} IN
                     s \o [i \in 1..Rng(2, Kid(x, j)) |-> [dst |-> j, src |-> Nth(S, Kid(x, 10 * j + i)), set |-> args[j].wo \/ Kid(x, 100 + i) % 5 = 0, i |-> Rng(4, Kid(x, 200 + j))]], <<>>, [j \in 1..Len(args) |-> j])
File(r) == LET args == TLCEval([j \in 1..Rng(MaxArgs, r[1]) |-> Arg(Hash(r[2] + j), j)]) l == <<Rng(3, r[3]), Rng(2, r[4]), Rng(2, r[5])>> IN
  [args |-> args, body |-> Stmts(args, Hash(r[6])), l |-> l, n |-> <<l[1] * Rng(4, r[7]), l[2] * Rng(2, r[8]), l[3] * Rng(2, r[9])>>, c |-> NthSeq(<<1, 7>>, r[10]), lay |-> r[11] % 1000, thr |-> Rng(4, r[12])]
(* defects; those that need no particular argument are written down as they are *)
Plain == <<"kernel", "program", "source", "more", "uneven", "zero", "noargs", "empty">>
Per == <<"nosize", "badtok", "sizetype", "twotypes", "rowo", "nullsize", "noinit", "dump", "two", "badrange", "badfill", "badval", "badsize", "short", "nohdr", "noend", "psize", "psmall", "bigchar", "roarg">>
Can(d, a, last) ==
  CASE d = "sizetype" -> Size(a.ft) > 1 /\ a.init.k # "null" [] d = "twotypes" -> a.q # "l" [] d = "rowo" -> a.q = "g" [] d = "nullsize" -> Buffer(a) [] d \in {"noinit", "dump"} -> ~Buffer(a)
    [] d = "two" -> a.init.k = "fill" [] d = "badrange" -> a.init.k = "range" [] d = "badfill" -> a.init.k = "fill" [] d = "badval" -> a.init.k = "data" [] d = "bigchar" -> a.init.k = "data" /\ Size(a.ft) = 1
    [] d \in {"nosize", "badsize"} -> a.init.k # "null" [] d = "short" -> last /\ a.init.k = "data" [] d \in {"psize", "psmall"} -> a.q = "p" /\ a.init.k = "fill" /\ (d = "psize" \/ a.size > Size(a.ft)) [] d = "roarg" -> a.q # "g" [] OTHER -> TRUE
Defects(F) == {<<p, 0>> : p \in Range(Plain)} \cup {<<d, j>> \in Range(Per) \X (1..Len(F.args)) : Can(d, F.args[j], j = Len(F.args))}
Init == file = [a |-> 0] /\ want = [a |-> 0] /\ phase = "new" /\ step = 0
Next == step' = step + 1 /\ \E r \in {Draw(step)} :
          \/ phase = "new" /\ file' = TLCEval(File(r)) /\ phase' = "run" /\ want' = [a |-> 0]
          \/ phase = "run" /\ phase' = "done" /\ UNCHANGED file /\ want' = (IF r[1] % 100 < 35 THEN [bad |-> Nth(Defects(file), r[2])] ELSE [dumps |-> TLCEval(Dumps(file)), ok |-> Valid(file)])
Emit == phase = "done" => PrintT(<<"T", ToJson([file |-> file, want |-> want])>>)
AllValid == phase = "done" => Valid(file)
================================================================================
