-------------------------------- MODULE PrintfGen ------------------------------
(* Random kernels that print, with what every item prints. Items see different *)
(* argument values.                                                            *)
EXTENDS Printf, Rnd, Json
CONSTANTS MaxCalls, MaxArgs
VARIABLES n, lz, calls, out, phase, step
HH(x) == ((x % 32749) * 65003 + (x \div 32749) * 31 + 12345) % 1000003
Hash(x) == TLCEval(HH(HH(HH(x))))
Kid(x, i) == Hash(x * 37 + i)
Txt == <<"", " ", "x=", ": ", "-", "a b", "#", "0", "d", "l", "v4", ".", "5", ",", "[]", "tab ", "(", "text without any conversions">>
Strs == <<"", "a", "hello", "a longer string, with 123", "%d", "x y", "tail ">>
Convs == <<"d", "d", "i", "u", "o", "x", "X", "c", "s", "f", "f", "F", "e", "E", "g", "g", "G", "a", "A", "d", "u", "x", "f">>
(* bytes that are interesting: small, large, negative, any *)
Byte(x, i, w) == LET k == Kid(x, 50) % 7 IN
  CASE k = 0 -> 0 [] k = 1 -> (IF i = 1 THEN Kid(x, i) % 100 ELSE 0) [] k = 2 -> (IF i = 1 THEN 255 - (Kid(x, i) % 30) ELSE 255)
    [] k = 3 -> (IF i = w THEN 128 ELSE 0) [] k = 4 -> (IF i = w THEN 127 ELSE 255) [] OTHER -> Kid(x, i) % 256
Bytes(x, w) == TLCEval([i \in 1..w |-> Byte(x, i, w)])
Num(x, d) == LET k == Kid(x, 1) % 14 s == Kid(x, 2) % 3 = 0 IN
  CASE k = 0 -> [c |-> "num", neg |-> s, m |-> 0, e |-> 0] [] k = 1 -> [c |-> "inf", neg |-> s, m |-> 0, e |-> 0] [] k = 2 -> [c |-> "nan", neg |-> FALSE, m |-> 0, e |-> 0]
    [] k \in {3, 4} -> [c |-> "num", neg |-> s, m |-> Kid(x, 3) % 1000, e |-> 0] [] k \in {5, 6, 7} -> [c |-> "num", neg |-> s, m |-> Kid(x, 3) % 4000, e |-> -(Kid(x, 4) % 8)]
    [] k = 8 -> [c |-> "num", neg |-> s, m |-> 1 + (Kid(x, 3) % 4095), e |-> (Kid(x, 4) % 120) - 100] [] k = 9 -> [c |-> "num", neg |-> s, m |-> 2 * (Kid(x, 3) % 500) + 1, e |-> -1 - (Kid(x, 4) % 3)]
    [] k = 10 -> [c |-> "num", neg |-> s, m |-> 9999999 - (Kid(x, 3) % 3), e |-> -(Kid(x, 4) % 20)]
    [] OTHER -> [c |-> "num", neg |-> s, m |-> (Kid(x, 3) * 16 + (Kid(x, 5) % 16)) % (IF d THEN 1000000000 ELSE 16777216), e |-> (Kid(x, 4) % 60) - 40]
(* a conversion and the type of its argument (the C library's %#g is wrong for values that round up to a power of ten) *)
Fmt(x) ==
  LET c == NthSeq(Convs, Kid(x, 1)) int == c \in Ints flt == ~int /\ c \notin {"c", "s"}
      vec == IF c \notin {"c", "s"} /\ Kid(x, 2) % 3 = 0 THEN NthSeq(<<2, 3, 4, 8, 16>>, Kid(x, 3)) ELSE 1
      len == IF int THEN (IF vec > 1 THEN NthSeq(<<"hh", "h", "hl", "l">>, Kid(x, 4)) ELSE NthSeq(<<"", "", "", "hh", "h", "l", "l">>, Kid(x, 4)))
             ELSE IF flt THEN (IF vec > 1 THEN NthSeq(<<"hl", "l">>, Kid(x, 4)) ELSE NthSeq(<<"", "", "l">>, Kid(x, 4))) ELSE ""
      sg == c \in {"d", "i"} \/ flt
  IN [conv |-> c, len |-> len, vec |-> vec, width |-> IF Kid(x, 5) % 2 = 0 THEN 0 ELSE Rng(14, Kid(x, 6)), prec |-> IF c = "c" \/ Kid(x, 7) % 2 = 0 THEN -1 ELSE Kid(x, 8) % 10,
      minus |-> Kid(x, 9) % 5 = 0, plus |-> sg /\ Kid(x, 10) % 5 = 0, space |-> sg /\ Kid(x, 11) % 6 = 0, hash |-> (c \in {"o", "x", "X"} \/ (flt /\ c \notin {"g", "G"})) /\ Kid(x, 12) % 4 = 0,
      zero |-> c \notin {"c", "s"} /\ Kid(x, 13) % 4 = 0]
(* the argument's type: bytes per element (0: string), floating point?, signed? *)
Type(f, x) == CASE f.conv = "s" -> [w |-> 0, fl |-> FALSE, s |-> FALSE]
               [] f.conv = "c" -> [w |-> NthSeq(<<1, 4>>, x), fl |-> FALSE, s |-> TRUE]
               [] f.conv \in Ints -> [w |-> IF f.vec = 1 /\ f.len # "l" THEN NthSeq(<<4, 4, 4, 2, 1>>, x) ELSE Width(f.len), fl |-> FALSE, s |-> (x \div 5) % 2 = 0]
               [] OTHER -> [w |-> IF f.len = "l" \/ (f.vec = 1 /\ x % 3 = 0) THEN 8 ELSE 4, fl |-> TRUE, s |-> TRUE]
(* (not those that TLA+ or C strings would have to escape) *)
Printable(x) == LET c == 32 + (x % 95) IN IF c \in {34, 37, 92} THEN 33 ELSE c
Values(f, t, x) == TLCEval([v \in 1..f.vec |-> IF t.w = 0 THEN NthSeq(Strs, Kid(x, 1)) ELSE IF f.conv = "c" THEN [i \in 1..t.w |-> IF i = 1 THEN Printable(Kid(x, 20 + v)) ELSE 0]
                                 ELSE IF t.fl THEN Num(Kid(x, 20 + v), t.w = 8) ELSE Bytes(Kid(x, 20 + v), t.w)])
Piece(x) == IF Kid(x, 1) % 9 = 0 THEN [k |-> "pct"] ELSE IF Kid(x, 1) % 9 < 4 THEN [k |-> "txt", t |-> NthSeq(Txt, Kid(x, 2))]
            ELSE LET f == TLCEval(Fmt(Kid(x, 3))) IN [k |-> "cnv", f |-> f, t |-> Type(f, Kid(x, 4)), h |-> Kid(x, 5)]
Call(x) == [items |-> TLCEval([i \in 1..Rng(2 * MaxArgs, Kid(x, 1)) |-> Piece(Kid(x, 10 + i))]), times |-> NthSeq(<<1, 1, 1, 1, 2, 0>>, Kid(x, 2)), by |-> NthSeq(<<"all", "all", "odd", "first">>, Kid(x, 3)), fn |-> Kid(x, 4) % 4 = 0]
Does(c, i) == IF c.by = "all" \/ (c.by = "odd" /\ i % 2 = 1) \/ (c.by = "first" /\ i % lz = 0) THEN c.times ELSE 0
With(c, i) == TLCEval([j \in 1..Len(c.items) |-> LET y == c.items[j] IN IF y.k = "cnv" THEN y @@ [a |-> [s |-> y.t.s, v |-> Values(y.f, y.t, IF y.t.w = 0 THEN y.h ELSE Kid(y.h, i + 1))]] ELSE y])
Init == n = 1 /\ lz = 1 /\ calls = <<>> /\ out = <<>> /\ phase = "new" /\ step = 0
Next == step' = step + 1 /\ \E r \in {Draw(step)} :
          \/ /\ phase = "new" /\ phase' = "run" /\ out' = <<>>
             /\ lz' = Rng(3, r[1]) /\ n' = lz' * Rng(3, r[2]) /\ calls' = TLCEval([c \in 1..Rng(MaxCalls, r[3]) |-> Call(Hash(r[4] + c))])
          \/ /\ phase = "run" /\ phase' = "done" /\ UNCHANGED <<n, lz, calls>>
             /\ out' = TLCEval([i \in 1..n |-> [c \in 1..Len(calls) |-> LET w == With(calls[c], i - 1) IN
                    [args |-> [j \in 1..Len(w) |-> IF w[j].k = "cnv" THEN w[j].a.v ELSE <<>>], n |-> Does(calls[c], i - 1), want |-> IF Does(calls[c], i - 1) = 0 THEN "" ELSE Printed(w)]]])
Emit == phase = "done" => PrintT(<<"T", ToJson([n |-> n, l |-> lz, calls |-> calls, out |-> out])>>)
================================================================================
