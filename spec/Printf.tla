---------------------------------- MODULE Printf --------------------------------
(* What printf prints. Integers are given by their bytes, least significant    *)
(* first; floating-point values as [c |-> "num", neg, m, e], the value m * 2^e *)
(* ("inf" and "nan" for c otherwise). All conversions are exact: decimal       *)
(* expansions are sequences of digits, most significant first.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Times(s, n) == IF n <= 0 THEN "" ELSE FoldLeft(LAMBDA x, i : x \o s, "", [i \in 1..n |-> i])
Max2(a, b) == IF a > b THEN a ELSE b
Chr(cs, i) == SubSeq(cs, i, i)
Lower == "0123456789abcdef"
Upper == "0123456789ABCDEF"
Str(ds, cs) == FoldLeft(LAMBDA x, d : x \o Chr(cs, d + 1), "", ds)
Zeros(n) == IF n <= 0 THEN <<>> ELSE TLCEval([i \in 1..n |-> 0])
Strip(ds) == LET k == CHOOSE i \in 1..(Len(ds) + 1) : (i > Len(ds) \/ ds[i] # 0) /\ \A j \in 1..(i - 1) : ds[j] = 0 IN SubSeq(ds, k, Len(ds))
(* digits in base b, least significant first, times f plus c *)
RECURSIVE Carry(_, _)
Carry(c, b) == IF c = 0 THEN <<>> ELSE <<c % b>> \o Carry(c \div b, b)
MulAdd(ds, f, c, b) == LET r == FoldLeft(LAMBDA x, d : <<(x[1] + d * f) \div b, Append(x[2], (x[1] + d * f) % b)>>, <<c, <<>>>>, ds) IN r[2] \o Carry(r[1], b)
(* bytes (or other digits, least significant first, base a) in base b, most significant first *)
Convert(ds, a, b) == Strip(Reverse(FoldRight(LAMBDA d, x : MulAdd(x, a, d, b), ds, <<>>)))
(* round the digits (base b, most significant first) to their first n, ties to even: <<digits, carried?>>; a carry leaves n + 1 digits *)
Round(ds, n, b) ==
  LET kept == SubSeq(ds, 1, n) rest == SubSeq(ds, n + 1, Len(ds)) h == b \div 2
      even == n = 0 \/ kept[n] % 2 = 0
      up == rest # <<>> /\ (rest[1] > h \/ (rest[1] = h /\ ((\E i \in 2..Len(rest) : rest[i] # 0) \/ ~even)))
      inc == Reverse(MulAdd(Reverse(kept), 1, 1, b))
  IN IF up THEN IF n = 0 THEN <<1>> ELSE inc ELSE kept
(* ---- integers ---- *)
Ext(bs, n, sg) == IF Len(bs) >= n THEN SubSeq(bs, 1, n) ELSE bs \o [i \in 1..(n - Len(bs)) |-> IF sg /\ bs[Len(bs)] >= 128 THEN 255 ELSE 0]
Negate(bs) == FoldLeft(LAMBDA x, d : <<(x[1] + 255 - d) \div 256, Append(x[2], (x[1] + 255 - d) % 256)>>, <<1, <<>>>>, bs)[2]
Width(len) == CASE len = "hh" -> 1 [] len = "h" -> 2 [] len \in {"", "hl"} -> 4 [] len = "l" -> 8
(* f: [conv, len, vec, width, prec (-1: none), minus, plus, space, hash, zero] *)
Sign(f, neg) == IF neg THEN "-" ELSE IF f.plus THEN "+" ELSE IF f.space THEN " " ELSE ""
Pad(f, sign, body, zero) ==
  LET n == f.width - Len(sign) - Len(body) IN
  IF n <= 0 THEN sign \o body
  ELSE IF f.minus THEN sign \o body \o Times(" ", n)
  ELSE IF zero THEN sign \o Times("0", n) \o body
  ELSE Times(" ", n) \o sign \o body
IntStr(f, bs) ==
  LET sg == f.conv \in {"d", "i"}
      b == CASE f.conv = "o" -> 8 [] f.conv \in {"x", "X"} -> 16 [] OTHER -> 10
      neg == sg /\ bs[Len(bs)] >= 128
      ds == Convert(IF neg THEN Negate(bs) ELSE bs, 256, b)
      min == IF f.prec >= 0 THEN f.prec ELSE 1
      d1 == Zeros(min - Len(ds)) \o ds
      d2 == IF f.hash /\ f.conv = "o" /\ (d1 = <<>> \/ d1[1] # 0) THEN <<0>> \o d1 ELSE d1
      prefix == IF f.hash /\ f.conv \in {"x", "X"} /\ ds # <<>> THEN "0" \o f.conv ELSE ""
  IN Pad(f, (IF sg THEN Sign(f, neg) ELSE "") \o prefix, Str(d2, IF f.conv = "X" THEN Upper ELSE Lower), f.zero /\ f.prec < 0)
(* ---- floating point ---- *)
(* the decimal expansion of m * 2^e: <<digits, most significant first, number of them after the point>> *)
Decimal(x) == LET d == FoldLeft(LAMBDA a, i : MulAdd(a, IF x.e < 0 THEN 5 ELSE 2, 0, 10), Reverse(Convert(Carry(x.m, 256), 256, 10)), [i \in 1..(IF x.e < 0 THEN -x.e ELSE x.e) |-> i])
              IN <<Strip(Reverse(d)), IF x.e < 0 THEN -x.e ELSE 0>>
Dot(ds, p, hash) == LET t == Zeros(p + 1 - Len(ds)) \o ds n == Len(t) - p IN Str(SubSeq(t, 1, n), Lower) \o (IF p > 0 \/ hash THEN "." ELSE "") \o Str(SubSeq(t, n + 1, Len(t)), Lower)
Fixed(x, p) == LET d == Decimal(x) cut == d[2] - p IN
  IF cut <= 0 THEN d[1] \o Zeros(-cut) ELSE IF Len(d[1]) < cut THEN <<>> ELSE Round(d[1], Len(d[1]) - cut, 10)
(* <<p + 1 significant digits, exponent>> *)
Sci(x, p) == LET d == Decimal(x) n == Len(d[1]) IN
  IF n = 0 THEN <<Zeros(p + 1), 0>>
  ELSE LET ds == IF n <= p + 1 THEN d[1] \o Zeros(p + 1 - n) ELSE Round(d[1], p + 1, 10) IN
       <<SubSeq(ds, 1, p + 1), (n - 1 - d[2]) + (IF Len(ds) > p + 1 THEN 1 ELSE 0)>>
Abs(x) == IF x < 0 THEN -x ELSE x
Expo(x, min) == (IF x < 0 THEN "-" ELSE "+") \o (IF Abs(x) < 10 /\ min > 1 THEN "0" ELSE "") \o ToString(Abs(x))
SciStr(s, p, hash, c) == Dot(s[1], p, hash) \o c \o Expo(s[2], 2)
TrimRight(ds) == LET k == CHOOSE i \in 0..Len(ds) : (i = 0 \/ ds[i] # 0) /\ \A j \in (i + 1)..Len(ds) : ds[j] = 0 IN SubSeq(ds, 1, k)
General(f, x) ==
  LET P == IF f.prec < 0 THEN 6 ELSE Max2(1, f.prec) s == Sci(x, P - 1) c == IF f.conv = "G" THEN "E" ELSE "e" IN
  IF s[2] < P /\ s[2] >= -4
  THEN LET p == P - 1 - s[2] ds == Fixed(x, p) t == Zeros(p + 1 - Len(ds)) \o ds n == Len(t) - p IN
       IF f.hash THEN Dot(ds, p, TRUE) ELSE LET fr == TrimRight(SubSeq(t, n + 1, Len(t))) IN Dot(SubSeq(t, 1, n) \o fr, Len(fr), FALSE)
  ELSE IF f.hash THEN SciStr(s, P - 1, TRUE, c) ELSE LET ds == <<s[1][1]>> \o TrimRight(SubSeq(s[1], 2, P)) IN SciStr(<<ds, s[2]>>, Len(ds) - 1, FALSE, c)
(* hexadecimal: 1 and the bits after it *)
Binary(m) == Convert(Carry(m, 2), 2, 2)
HexFloat(f, x) ==
  LET up == f.conv = "A" bs == Binary(x.m) IN
  IF x.m = 0 THEN Str(<<0>>, Lower) \o (IF f.prec > 0 \/ f.hash THEN "." ELSE "") \o Times("0", Max2(0, f.prec)) \o (IF up THEN "P+0" ELSE "p+0")
  ELSE LET fb == Tail(bs) n == (Len(fb) + 3) \div 4 pb == fb \o Zeros(4 * n - Len(fb))
           hex == TLCEval([i \in 1..n |-> 8 * pb[4 * i - 3] + 4 * pb[4 * i - 2] + 2 * pb[4 * i - 1] + pb[4 * i]])
           all == IF f.prec < 0 THEN <<1>> \o TrimRight(hex) ELSE IF n <= f.prec THEN <<1>> \o hex \o Zeros(f.prec - n) ELSE Round(<<1>> \o hex, f.prec + 1, 16)
           k == Len(all) - 1
       IN Str(<<all[1]>>, Lower) \o (IF k > 0 \/ f.hash THEN "." ELSE "") \o Str(Tail(all), IF up THEN Upper ELSE Lower) \o (IF up THEN "P" ELSE "p") \o Expo(x.e + Len(bs) - 1, 1)
UpperConv(c) == c \in {"F", "E", "G", "A"}
FloatStr(f, x) ==
  LET p == IF f.prec < 0 THEN 6 ELSE f.prec sign == Sign(f, x.neg) IN
  CASE x.c = "inf" -> Pad(f, sign, IF UpperConv(f.conv) THEN "INF" ELSE "inf", FALSE)
    [] x.c = "nan" -> Pad(f, sign, IF UpperConv(f.conv) THEN "NAN" ELSE "nan", FALSE)
    [] f.conv \in {"f", "F"} -> Pad(f, sign, Dot(Fixed(x, p), p, f.hash), f.zero)
    [] f.conv \in {"e", "E"} -> Pad(f, sign, SciStr(Sci(x, p), p, f.hash, f.conv), f.zero)
    [] f.conv \in {"g", "G"} -> Pad(f, sign, General(f, x), f.zero)
    [] f.conv \in {"a", "A"} -> Pad(f, sign \o (IF f.conv = "A" THEN "0X" ELSE "0x"), HexFloat(f, x), f.zero)
(* ---- one conversion: a: [t (type), s (signed), v (elements)] ---- *)
Ascii == " !.#$.&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[.]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ints == {"d", "i", "u", "o", "x", "X"}
One(f, a, n) ==
  CASE f.conv \in Ints -> IntStr(f, Ext(Ext(a.v[n], 8, a.s), Width(f.len), a.s))
    [] f.conv = "c" -> Pad(f, "", Chr(Ascii, a.v[n][1] - 31), FALSE)
    [] f.conv = "s" -> Pad(f, "", IF f.prec >= 0 /\ f.prec < Len(a.v[n]) THEN SubSeq(a.v[n], 1, f.prec) ELSE a.v[n], FALSE)
    [] OTHER -> FloatStr(f, a.v[n])
Conv(f, a) == FoldLeft(LAMBDA s, n : s \o (IF n > 1 THEN "," ELSE "") \o One(f, a, n), "", [n \in 1..f.vec |-> n])
(* a call: pieces of text and conversions, the conversions' arguments *)
Printed(items) == FoldLeft(LAMBDA s, x : s \o (IF x.k = "txt" THEN x.t ELSE IF x.k = "pct" THEN "%" ELSE Conv(x.f, x.a)), "", items)
================================================================================
