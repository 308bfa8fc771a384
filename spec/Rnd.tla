--------------------------------- MODULE Rnd ---------------------------------
(* Random choices for behaviour generators. An action draws one tuple of    *)
(* numbers with  \E r \in {Draw} : ...  and derives all choices from it, so *)
(* that every use of a choice within the step sees the same value.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
(* (A parameter keeps TLC from evaluating the definition only once.)        *)
D(i) == RandomElement(0..99999)
Draw(x) == TLCEval(<<D(1), D(2), D(3), D(4), D(5), D(6), D(7), D(8), D(9), D(10), D(11), D(12), D(13), D(14), D(15), D(16),
                     D(17), D(18), D(19), D(20), D(21), D(22), D(23), D(24), D(25), D(26), D(27), D(28), D(29), D(30), D(31), D(32)>>)
Rng(n, k) == 1 + (k % n)                       \* 1..n
Between(a, b, k) == a + (k % (b - a + 1))
Chance(pct, k) == (k % 100) < pct
Nth(S, k) == LET s == SetToSeq(S) IN s[1 + (k % Len(s))]
NthSeq(s, k) == s[1 + (k % Len(s))]
(* the elements of S in an order derived from k *)
Rotate(s, k) == IF s = <<>> THEN s ELSE [i \in 1..Len(s) |-> s[1 + ((i - 1 + k) % Len(s))]]
Ordering(S, k) == LET s == Rotate(SetToSeq(S), k) IN IF (k \div 7) % 2 = 0 THEN s ELSE [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
