---------------------------------- MODULE Hsh ----------------------------------
(* Choices of generators derived from one number, and operands around the       *)
(* boundaries of their types.                                                   *)
EXTENDS BV
H0(x) == ((x % 32749) * 65003 + (x \div 32749) * 31 + 12345) % 1000003
Hash(x) == TLCEval(H0(H0(H0(x))))
Sub_(h, i) == TLCEval(H0(H0(h * 64 + i)))
RandB(n, h) == TLCEval([i \in 1..n |-> Sub_(h, i) % 256])
PowTwo(n, k) == Shl(One(n), k % (8 * n))
IntOp(n, h, p) ==                           \* p: the operand before it
  LET k == h % 16 m == h \div 16 IN
  CASE k = 0 -> Zero(n) [] k = 1 -> Ones(n) [] k = 2 -> MinOf(n, TRUE) [] k = 3 -> MaxOf(n, TRUE) [] k = 4 -> FromInt(m % 20, n) [] k = 5 -> FromInt(-(m % 20), n)
    [] k = 6 -> Add(PowTwo(n, m), FromInt(((m \div 64) % 3) - 1, n)) [] k = 7 -> Negate(PowTwo(n, m)) [] k = 8 -> p [] k = 9 -> Add(p, One(n)) [] k = 10 -> Negate(p)
    [] k = 11 -> BNot(p) [] k = 12 -> Sub(MaxOf(n, TRUE), p) [] k = 13 -> Add(MinOf(n, TRUE), FromInt(m % 3, n)) [] OTHER -> RandB(n, m)
================================================================================
