------------------------------- MODULE Builtin -------------------------------
(* What the integer and relational built-ins of OpenCL C return, component by *)
(* component, defined on the mathematical values of their operands.           *)
EXTENDS BV
Types == [char |-> [n |-> 1, s |-> TRUE, f |-> FALSE], uchar |-> [n |-> 1, s |-> FALSE, f |-> FALSE], short |-> [n |-> 2, s |-> TRUE, f |-> FALSE], ushort |-> [n |-> 2, s |-> FALSE, f |-> FALSE],
          int |-> [n |-> 4, s |-> TRUE, f |-> FALSE], uint |-> [n |-> 4, s |-> FALSE, f |-> FALSE], long |-> [n |-> 8, s |-> TRUE, f |-> FALSE], ulong |-> [n |-> 8, s |-> FALSE, f |-> FALSE],
          float |-> [n |-> 4, s |-> TRUE, f |-> TRUE], double |-> [n |-> 8, s |-> TRUE, f |-> TRUE]]
Wide(a, s) == TLCEval(Ext(a, 2 * Len(a) + 2, s))
(* an operation of type (n, s) on operands of that type; x, y, z: operands *)
IntFn(f, n, s, x, y, z) ==
  CASE f = "abs" -> SubSeq(Mag(Ext(x, n + 1, s)), 1, n)
    [] f = "abs_diff" -> SubSeq(Mag(Sub(Ext(x, n + 1, s), Ext(y, n + 1, s))), 1, n)
    [] f = "add_sat" -> Sat(Add(Ext(x, n + 2, s), Ext(y, n + 2, s)), n, s)
    [] f = "sub_sat" -> Sat(Sub(Ext(x, n + 2, s), Ext(y, n + 2, s)), n, s)
    [] f = "hadd" -> SubSeq(Shr(Add(Ext(x, n + 1, s), Ext(y, n + 1, s)), 1, TRUE), 1, n)
    [] f = "rhadd" -> SubSeq(Shr(Add(Add(Ext(x, n + 1, s), Ext(y, n + 1, s)), One(n + 1)), 1, TRUE), 1, n)
    [] f = "mul_hi" -> SubSeq(Mul(Wide(x, s), Wide(y, s)), n + 1, 2 * n)
    [] f = "mad_hi" -> Add(SubSeq(Mul(Wide(x, s), Wide(y, s)), n + 1, 2 * n), z)
    [] f = "mad_sat" -> Sat(Add(Mul(Wide(x, s), Wide(y, s)), Wide(z, s)), n, s)
    [] f = "mul24" -> Mul(x, y)
    [] f = "mad24" -> Add(Mul(x, y), z)
    [] f = "clz" -> FromInt(Clz(x), n)
    [] f = "popcount" -> FromInt(Pop(x), n)
    [] f = "rotate" -> Rotl(x, ModInt(y, Width(x)))
    [] f = "min" -> IF Lt(y, x, s) THEN y ELSE x
    [] f = "max" -> IF Lt(x, y, s) THEN y ELSE x
    [] f = "clamp" -> IF Lt(x, y, s) THEN y ELSE IF Lt(z, x, s) THEN z ELSE x
    [] f = "bitselect" -> BOr(BAnd(x, BNot(z)), BAnd(y, z))
    [] f = "upsample" -> y \o x
(* floating point values by their representation: exponent bits e, fraction not zero? *)
Expo(a) == LET b == TLCEval(Bits(a)) w == IF Len(a) = 4 THEN 8 ELSE 11 IN SubSeq(b, Len(b) - w, Len(b) - 1)
FracZ(a) == LET b == TLCEval(Bits(a)) w == IF Len(a) = 4 THEN 8 ELSE 11 IN \A i \in 1..(Len(b) - w - 1) : b[i] = 0
AllOnes(e) == \A i \in 1..Len(e) : e[i] = 1
AllZero(e) == \A i \in 1..Len(e) : e[i] = 0
IsNan(a) == AllOnes(Expo(a)) /\ ~FracZ(a)
IsInf(a) == AllOnes(Expo(a)) /\ FracZ(a)
NoSign(a) == [a EXCEPT ![Len(a)] = @ % (Base \div 2)]
IsZero(a) == NoSign(a) = Zero(Len(a))
FLt(a, b) == ~IsNan(a) /\ ~IsNan(b) /\ ~(IsZero(a) /\ IsZero(b)) /\
             IF Neg(a) # Neg(b) THEN Neg(a) ELSE IF Neg(a) THEN LtU(NoSign(b), NoSign(a)) ELSE LtU(NoSign(a), NoSign(b))
FEq(a, b) == ~IsNan(a) /\ ~IsNan(b) /\ (a = b \/ (IsZero(a) /\ IsZero(b)))
Rel(f, a, b) ==
  CASE f = "isequal" -> FEq(a, b) [] f = "isnotequal" -> ~FEq(a, b) [] f = "isgreater" -> FLt(b, a) [] f = "isgreaterequal" -> FLt(b, a) \/ FEq(a, b)
    [] f = "isless" -> FLt(a, b) [] f = "islessequal" -> FLt(a, b) \/ FEq(a, b) [] f = "islessgreater" -> FLt(a, b) \/ FLt(b, a)
    [] f = "isordered" -> ~IsNan(a) /\ ~IsNan(b) [] f = "isunordered" -> IsNan(a) \/ IsNan(b)
    [] f = "isfinite" -> ~AllOnes(Expo(a)) [] f = "isinf" -> IsInf(a) [] f = "isnan" -> IsNan(a)
    [] f = "isnormal" -> ~AllOnes(Expo(a)) /\ ~AllZero(Expo(a)) [] f = "signbit" -> Neg(a)
(* conversion of an integer to type (n, s), wrapping or saturating *)
Conv(x, xs, n, s, sat) == IF sat THEN Sat(Ext(x, 18, xs), n, s) ELSE Ext(x, n, xs)
==============================================================================
