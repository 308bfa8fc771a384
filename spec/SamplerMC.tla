------------------------------ MODULE SamplerMC ------------------------------
(* Laws of the addressing modes and filters, for all small images.            *)
EXTENDS Sampler
VARIABLE x
Init == \E mode \in Modes, norm \in BOOLEAN, size \in 1..6, c \in -80..112 : (mode \in {"repeat", "mirror"} => norm) /\ x = [mode |-> mode, norm |-> norm, size |-> size, c |-> c]
Next == UNCHANGED x
N(c) == Nearest(x.mode, x.norm, c, x.size)
L(c) == Linear(x.mode, x.norm, c, x.size)
Lo == IF x.mode = "clamp" THEN -1 ELSE 0
Hi == IF x.mode = "clamp" THEN x.size ELSE x.size - 1
InRange == x.mode # "none" => N(x.c) \in Lo..Hi /\ L(x.c).i \in Lo..Hi /\ L(x.c).j \in Lo..Hi
Periodic == /\ x.mode = "repeat" => N(x.c) = N(x.c + 16) /\ L(x.c) = L(x.c + 16)
            /\ x.mode = "mirror" => N(x.c) = N(x.c + 32) /\ N(x.c) = N(-x.c) /\ L(x.c) = L(-x.c)
u == U(x.norm, x.c, x.size)
(* inside the image all modes agree with the plain pixel; between centres all modes agree on the neighbours *)
Interior == /\ u >= 0 /\ u < 16 * x.size => N(x.c) = u \div 16
            /\ u >= 8 /\ u < 16 * x.size - 8 => L(x.c).i = (u - 8) \div 16 /\ L(x.c).j = L(x.c).i + 1
(* at the centre of a pixel the filters agree, and moving right moves to the right *)
Centre == u % 16 = 8 /\ u >= 0 /\ u < 16 * x.size => L(x.c).i = N(x.c) /\ L(x.c).w = 0
Outside == x.mode = "clamp" => /\ u < 0 => N(x.c) = -1
                               /\ u >= 16 * x.size => N(x.c) = x.size
                               /\ u < -8 => L(x.c).i = -1 /\ L(x.c).j = -1
(* a linear lookup in a ramp is the ramp: weights add up and are on the right side *)
Ramp == x.mode \in {"none", "edge"} /\ u >= 8 /\ u <= 16 * x.size - 8 => 16 * L(x.c).i + L(x.c).w * (L(x.c).j - L(x.c).i) = u - 8
=============================================================================
