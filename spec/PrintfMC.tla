-------------------------------- MODULE PrintfMC -------------------------------
(* The definitions of Printf against independent readings of what they print,  *)
(* for all small values and many formats.                                      *)
EXTENDS Printf
CONSTANTS MaxM, MaxP, Lo, Hi
VARIABLES m, e, p, w, fl, bs, cv
vars == <<m, e, p, w, fl, bs, cv>>
Flags == {<<>>, <<"minus">>, <<"plus">>, <<"space">>, <<"hash">>, <<"zero">>, <<"minus", "plus">>, <<"plus", "zero">>, <<"hash", "zero">>}
Has(x) == \E i \in 1..Len(fl) : fl[i] = x
F(c, len) == [conv |-> c, len |-> len, vec |-> 1, width |-> w, prec |-> p, minus |-> Has("minus"), plus |-> Has("plus"), space |-> Has("space"), hash |-> Has("hash"), zero |-> Has("zero")]
Init == m \in 0..MaxM /\ e \in (-Lo)..Hi /\ p \in -1..MaxP /\ w \in {0, 7} /\ fl \in Flags /\ cv \in (IF e = -Lo THEN {"d", "u", "o", "x"} ELSE {"d"}) /\ bs \in {<<b>> : b \in (IF e = -Lo THEN {m % 256, 255 - m, 128 + m} ELSE {m})}
Next == FALSE /\ UNCHANGED vars
X == [c |-> "num", neg |-> m % 2 = 1, m |-> m, e |-> e]
Digit(c) == CHOOSE d \in 0..15 : Chr(Lower, d + 1) = c
IsDigit(c) == \E d \in 0..15 : Chr(Lower, d + 1) = c
Chars(s) == [i \in 1..Len(s) |-> Chr(s, i)]
Value(cs, b) == FoldLeft(LAMBDA a, c : a * b + Digit(c), 0, cs)
(* a fixed-point number is within half a unit of its last place, and even if just half of it *)
P == IF p < 0 THEN 6 ELSE p
Pow(b, n) == FoldLeft(LAMBDA a, i : a * b, 1, [i \in 1..n |-> i])
FixedRight == p \in 0..3 /\ e \in -6..4 =>
  LET s == Chars(FloatStr([F("f", "") EXCEPT !.width = 0, !.zero = FALSE, !.minus = FALSE], X))
      ds == SelectSeq(s, IsDigit) v == Value(ds, 10) k == IF e < 0 THEN -e ELSE 0
      exact == m * Pow(2, IF e > 0 THEN e ELSE 0) * Pow(10, p) IN      \* both times 2^k
  /\ 2 * Abs(v * Pow(2, k) - exact) <= Pow(2, k)
  /\ (2 * Abs(v * Pow(2, k) - exact) = Pow(2, k) => v % 2 = 0)
  /\ (p > 0 => s[Len(s) - p] = ".")
(* widths, and where the padding is *)
Kinds == <<IntStr(F(cv, "hh"), bs), FloatStr(F("f", ""), X), FloatStr(F("e", ""), X), FloatStr(F("g", ""), X), FloatStr(F("a", ""), X)>>
Widths == \A i \in 1..Len(Kinds) : LET s == Kinds[i] t == CASE i = 1 -> IntStr([F(cv, "hh") EXCEPT !.width = 0], bs) [] OTHER -> FloatStr([F(<<"f", "e", "g", "a">>[i - 1], "") EXCEPT !.width = 0], X) IN
  /\ Len(s) = Max2(w, Len(t))
  /\ (Has("minus") => SubSeq(s, 1, Len(t)) = t)
  /\ (~Has("minus") /\ ~Has("zero") => SubSeq(s, 1 + Len(s) - Len(t), Len(s)) = t)
(* integers read back *)
Reads == p <= 3 /\ ~Has("minus") =>
  LET s == Chars(IntStr([F(cv, "hh") EXCEPT !.width = 0, !.hash = FALSE], bs)) b == CASE cv = "o" -> 8 [] cv = "x" -> 16 [] OTHER -> 10
      v == Value(SelectSeq(s, IsDigit), b) sv == IF cv = "d" /\ bs[1] >= 128 THEN 256 - bs[1] ELSE bs[1] IN
  /\ v = sv /\ ((cv = "d" /\ bs[1] >= 128) <=> (s # <<>> /\ s[1] = "-"))
(* scientific: one digit before the point, not 0 unless the value is; General never longer than both *)
Scis == LET s == Chars(FloatStr([F("e", "") EXCEPT !.width = 0, !.plus = FALSE, !.space = FALSE], [X EXCEPT !.neg = FALSE])) IN
  /\ ((s[1] = "0") <=> (m = 0)) /\ (P > 0 => s[2] = "." /\ s[P + 3] = "e") /\ Len(s) >= P + 5
Short == LET g == FloatStr([F("g", "") EXCEPT !.width = 0, !.hash = FALSE], X) IN Len(g) <= Max2(6, P) + 6
(* rounding to nearest is monotone in the value *)
Mono == p \in 0..3 => LET v(k) == Value(SelectSeq(Chars(FloatStr([F("f", "") EXCEPT !.width = 0], [X EXCEPT !.m = k])), IsDigit), 10) IN e \in -6..4 => v(m) <= v(m + 1)
================================================================================
