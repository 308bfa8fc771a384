------------------------------ MODULE BuiltinMC ------------------------------
(* The limb definitions against the integers, for every operand of a small    *)
(* type: two limbs, so that carries and signs between limbs take part.        *)
EXTENDS Builtin
CONSTANT Third                            \* operands used as the third one
VARIABLES x, s, done
Limbs == 2
M == Base ^ Limbs
Val(a, sg) == LET u == FoldLeft(LAMBDA r, i : r + a[i] * (Base ^ (i - 1)), 0, Seqn(Len(a))) IN IF sg /\ Neg(a) THEN u - Base ^ Len(a) ELSE u
All == {FromInt(k, Limbs) : k \in 0..(M - 1)}
Lo == IF s THEN -(M \div 2) ELSE 0
Hi == IF s THEN (M \div 2) - 1 ELSE M - 1
Cl(k) == IF k < Lo THEN Lo ELSE IF k > Hi THEN Hi ELSE k
Wrap(k) == LET r == k % M IN IF s /\ r >= M \div 2 THEN r - M ELSE r
AbsI(k) == IF k < 0 THEN -k ELSE k
Quot(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
Un(f) == IntFn(f, Limbs, s, x, x, x)
Correct ==
  LET X == Val(x, s) V(a) == Val(a, s) F(f, y) == V(IntFn(f, Limbs, s, x, y, y)) IN
  /\ Val(Un("abs"), FALSE) = AbsI(X)
  /\ V(Un("popcount")) = Cardinality({i \in 0..(Limbs * LimbBits - 1) : (Val(x, FALSE) \div (2 ^ i)) % 2 = 1})
  /\ LET k == Val(Un("clz"), FALSE) u == Val(x, FALSE) N == Limbs * LimbBits IN IF u = 0 THEN k = N ELSE 2 ^ (N - 1 - k) <= u /\ u < 2 ^ (N - k)
  /\ V(BNot(x)) = Wrap(-X - 1) /\ V(Negate(x)) = Wrap(-X)
  /\ FromBits(Bits(x)) = x
  /\ \A k \in 0..(Limbs * LimbBits - 1) : V(Shl(x, k)) = Wrap(X * (2 ^ k)) /\ V(Shr(x, k, s)) = X \div (2 ^ k)
                                           /\ Val(Rotl(x, k), FALSE) = ((Val(x, FALSE) * (2 ^ k)) % M) + (Val(x, FALSE) \div (2 ^ (Limbs * LimbBits - k)))
  /\ \A y \in All : LET Y == Val(y, s) IN
       /\ Val(IntFn("abs_diff", Limbs, s, x, y, y), FALSE) = AbsI(X - Y)
       /\ F("add_sat", y) = Cl(X + Y) /\ F("sub_sat", y) = Cl(X - Y)
       /\ F("hadd", y) = (X + Y) \div 2 /\ F("rhadd", y) = (X + Y + 1) \div 2
       /\ F("mul_hi", y) = (X * Y) \div M
       /\ F("min", y) = (IF X < Y THEN X ELSE Y) /\ F("max", y) = (IF X < Y THEN Y ELSE X)
       /\ V(Add(x, y)) = Wrap(X + Y) /\ V(Sub(x, y)) = Wrap(X - Y) /\ V(Mul(x, y)) = Wrap(X * Y)
       /\ Lt(x, y, s) = (X < Y)
       /\ (y # Zero(Limbs) => V(DivMod(x, y, s)[1]) = Wrap(Quot(X, Y)) /\ V(DivMod(x, y, s)[2]) = X - Y * Quot(X, Y))
       /\ V(BAnd(x, y)) + V(BOr(x, y)) = X + Y /\ V(BXor(x, y)) = V(BOr(x, y)) - V(BAnd(x, y))
       /\ \A k \in Third : LET z == FromInt(k, Limbs) Z == Val(z, s) G(f) == V(IntFn(f, Limbs, s, x, y, z)) IN
            /\ G("mad_hi") = Wrap(((X * Y) \div M) + Z) /\ G("mad_sat") = Cl(X * Y + Z) /\ G("mad24") = Wrap(X * Y + Z)
            /\ (Y <= Z => G("clamp") = (IF X < Y THEN Y ELSE IF X > Z THEN Z ELSE X))
  /\ \A sg \in BOOLEAN : \A n \in 1..3 : \A sat \in BOOLEAN :
       LET r == Val(Conv(x, s, n, sg, sat), sg) lo == IF sg THEN -(Base ^ n \div 2) ELSE 0 hi == IF sg THEN (Base ^ n \div 2) - 1 ELSE Base ^ n - 1 IN
       IF lo <= X /\ X <= hi THEN r = X ELSE IF sat THEN r = (IF X < lo THEN lo ELSE hi) ELSE (r - X) % (Base ^ n) = 0
Init == x \in All /\ s \in BOOLEAN /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<x, s>>
Spec == Init /\ [][Next]_<<x, s, done>>
Right == done => Correct
==============================================================================
