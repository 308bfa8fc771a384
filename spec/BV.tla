---------------------------------- MODULE BV ----------------------------------
(* Fixed-width integers as sequences of limbs, least significant first: the    *)
(* values kernels compute with. All definitions are exact; nothing here is     *)
(* limited to the integers TLC has.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Bitwise
CONSTANT LimbBits
Base == 2 ^ LimbBits
(* (TLC keeps function literals lazily: make them values) *)
Seqn(n) == [i \in 1..n |-> i]
Norm(s) == FoldLeft(LAMBDA x, v : <<(x[1] + v) \div Base, Append(x[2], (x[1] + v) % Base)>>, <<0, <<>>>>, s)[2]
Zero(n) == TLCEval([i \in 1..n |-> 0])
One(n) == TLCEval([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])
Ones(n) == TLCEval([i \in 1..n |-> Base - 1])
FromInt(k, n) == Norm(TLCEval([i \in 1..n |-> IF i = 1 THEN k ELSE 0]))           \* also of a negative k
Neg(a) == a[Len(a)] >= Base \div 2
Ext(a, m, s) == IF m <= Len(a) THEN SubSeq(a, 1, m) ELSE a \o TLCEval([i \in 1..(m - Len(a)) |-> IF s /\ Neg(a) THEN Base - 1 ELSE 0])
Add(a, b) == Norm(TLCEval([i \in 1..Len(a) |-> a[i] + b[i]]))
Sub(a, b) == Norm(TLCEval([i \in 1..Len(a) |-> a[i] - b[i]]))
Negate(a) == Norm(TLCEval([i \in 1..Len(a) |-> -a[i]]))
Mul(a, b) == Norm(TLCEval([k \in 1..Len(a) |-> FoldLeft(LAMBDA x, i : IF i > k THEN x ELSE x + a[i] * b[k + 1 - i], 0, Seqn(Len(a)))]))
LtU(a, b) == FoldLeft(LAMBDA r, i : IF a[i] = b[i] THEN r ELSE a[i] < b[i], FALSE, Seqn(Len(a)))
LtS(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE LtU(a, b)
Lt(a, b, s) == IF s THEN LtS(a, b) ELSE LtU(a, b)
BAnd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
BOr(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
BXor(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
BNot(a) == TLCEval([i \in 1..Len(a) |-> Base - 1 - a[i]])
LimbBitsOf == TLCEval([v \in 0..(Base - 1) |-> TLCEval([j \in 1..LimbBits |-> (v \div (2 ^ (j - 1))) % 2])])
Bits(a) == FoldLeft(LAMBDA x, v : x \o LimbBitsOf[v], <<>>, a)
FromBits(b) == TLCEval([i \in 1..(Len(b) \div LimbBits) |-> FoldLeft(LAMBDA x, j : x + b[(i - 1) * LimbBits + j] * (2 ^ (j - 1)), 0, Seqn(LimbBits))])
Width(a) == LimbBits * Len(a)
(* shifts by s in 0..Width-1 *)
Shl(a, s) == LET b == TLCEval(Bits(a)) IN FromBits(TLCEval([i \in 1..Len(b) |-> IF i > s THEN b[i - s] ELSE 0]))
Shr(a, s, sg) == LET b == TLCEval(Bits(a)) f == IF sg /\ Neg(a) THEN 1 ELSE 0 IN FromBits(TLCEval([i \in 1..Len(b) |-> IF i + s <= Len(b) THEN b[i + s] ELSE f]))
Rotl(a, s) == LET b == TLCEval(Bits(a)) IN FromBits(TLCEval([i \in 1..Len(b) |-> b[1 + ((i - 1 - s) % Len(b))]]))
ModInt(a, m) == FoldLeft(LAMBDA x, i : (x * Base + a[Len(a) + 1 - i]) % m, 0, Seqn(Len(a)))   \* of an unsigned value, m small
Pop(a) == FoldLeft(LAMBDA x, v : x + v, 0, Bits(a))
Clz(a) == FoldLeft(LAMBDA x, v : IF v = 1 THEN 0 ELSE x + 1, 0, Bits(a))
(* division of unsigned values, by restoring: <<quotient, remainder>>, divisor not 0 *)
DivModU(a, b) ==
  LET bits == TLCEval(Bits(a)) n == Len(bits) m == Len(a) bb == TLCEval(Ext(b, m + 1, FALSE)) IN
  LET r == FoldLeft(LAMBDA x, i : \* remainder, quotient bits (most significant first)
        LET d == TLCEval(Norm([j \in 1..(m + 1) |-> 2 * x[1][j] + (IF j = 1 THEN bits[n + 1 - i] ELSE 0)])) IN
        IF LtU(d, bb) THEN <<d, Append(x[2], 0)>> ELSE <<Sub(d, bb), Append(x[2], 1)>>, <<Zero(m + 1), <<>>>>, Seqn(n))
  IN <<FromBits(Reverse(r[2])), SubSeq(r[1], 1, m)>>
Mag(a) == IF Neg(a) THEN Negate(a) ELSE a
(* quotient rounded towards zero, remainder with the sign of the dividend *)
DivMod(a, b, s) ==
  IF ~s THEN DivModU(a, b)
  ELSE LET q == TLCEval(DivModU(Mag(a), Mag(b))) IN <<IF Neg(a) # Neg(b) THEN Negate(q[1]) ELSE q[1], IF Neg(a) THEN Negate(q[2]) ELSE q[2]>>
MinOf(n, s) == IF s THEN TLCEval([i \in 1..n |-> IF i = n THEN Base \div 2 ELSE 0]) ELSE Zero(n)
MaxOf(n, s) == IF s THEN TLCEval([i \in 1..n |-> IF i = n THEN (Base \div 2) - 1 ELSE Base - 1]) ELSE Ones(n)
(* the value of type (n limbs, signed?) nearest to the signed value a of more limbs *)
Sat(a, n, s) == IF LtS(a, Ext(MinOf(n, s), Len(a), s)) THEN MinOf(n, s) ELSE IF LtS(Ext(MaxOf(n, s), Len(a), s), a) THEN MaxOf(n, s) ELSE SubSeq(a, 1, n)
Bool(b, n) == IF b THEN One(n) ELSE Zero(n)
===============================================================================
