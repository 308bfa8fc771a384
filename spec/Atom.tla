---------------------------------- MODULE Atom ---------------------------------
(* Atomic operations on one word. op: [o, s (signed?), a, b]: operands.        *)
(* "cmpxchg": a is compared with, b the new value.                             *)
EXTENDS BV
Ops == {"add", "sub", "xchg", "inc", "dec", "cmpxchg", "min", "max", "and", "or", "xor"}
New(op, v) ==
  CASE op.o = "add" -> Add(v, op.a) [] op.o = "sub" -> Sub(v, op.a) [] op.o = "xchg" -> op.a
    [] op.o = "inc" -> Add(v, One(Len(v))) [] op.o = "dec" -> Sub(v, One(Len(v)))
    [] op.o = "cmpxchg" -> IF v = op.a THEN op.b ELSE v
    [] op.o = "min" -> IF Lt(op.a, v, op.s) THEN op.a ELSE v [] op.o = "max" -> IF Lt(v, op.a, op.s) THEN op.a ELSE v
    [] op.o = "and" -> BAnd(v, op.a) [] op.o = "or" -> BOr(v, op.a) [] op.o = "xor" -> BXor(v, op.a)
================================================================================
