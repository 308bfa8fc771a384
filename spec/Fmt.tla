--------------------------------- MODULE Fmt ---------------------------------
(* Pixel formats: which channels are stored where, and how colour values are  *)
(* encoded as bytes. Float and normalised values are given in quarters.       *)
EXTENDS Integers, Sequences, Rnd
(* ---- formats ---- *)
Orders == <<"R", "Rx", "A", "RG", "RGx", "RA", "RGBA", "INTENSITY", "LUMINANCE", "ARGB", "BGRA">>
NumCh(or) == CASE or \in {"R", "Rx", "A", "INTENSITY", "LUMINANCE"} -> 1 [] or \in {"RG", "RGx", "RA"} -> 2 [] OTHER -> 4
Types == <<"sn8", "un8", "s8", "u8", "sn16", "un16", "s16", "u16", "s32", "u32", "f32", "f16">>
ChSize(t) == CASE t \in {"sn8", "un8", "s8", "u8"} -> 1 [] t \in {"sn16", "un16", "s16", "u16", "f16"} -> 2 [] OTHER -> 4
TypesOf(or) == CASE or \in {"INTENSITY", "LUMINANCE"} -> <<"sn8", "sn16", "un8", "un16", "f32", "f16">> [] or \in {"ARGB", "BGRA"} -> <<"sn8", "un8", "s8", "u8">> [] OTHER -> Types
Fmt(k, j) == LET or == NthSeq(Orders, k) IN <<or, NthSeq(TypesOf(or), j)>>
PixSize(f) == NumCh(f[1]) * ChSize(f[2])
(* where the channels of a colour (red, green, blue, alpha) are stored *)
Stored(or) == CASE or \in {"R", "Rx", "INTENSITY", "LUMINANCE"} -> <<1>> [] or = "A" -> <<4>> [] or \in {"RG", "RGx"} -> <<1, 2>>
                [] or = "RA" -> <<1, 4>> [] or = "RGBA" -> <<1, 2, 3, 4>> [] or = "ARGB" -> <<4, 1, 2, 3>> [] or = "BGRA" -> <<3, 2, 1, 4>>
Sat(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
(* q/4 rounded to the nearest integer, ties to even *)
Rint4(q) == LET n == q \div 4 m == q % 4 IN IF m < 2 THEN n ELSE IF m > 2 THEN n + 1 ELSE IF n % 2 = 0 THEN n ELSE n + 1
Little(x, n) == LET m == CASE n = 1 -> x % 256 [] n = 2 -> x % 65536 [] OTHER -> x
                IN IF n = 4 /\ m < 0 THEN <<m % 256, (m \div 256) % 256, (m \div 65536) % 256, (m \div 16777216) % 256>>
                   ELSE SubSeq(<<m % 256, (m \div 256) % 256, (m \div 65536) % 256, (m \div 16777216) % 256>>, 1, n)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Log2(m) == CHOOSE e \in 0..15 : Pow2[e + 1] <= m /\ m < Pow2[e + 2]
(* IEEE encodings of q/4 *)
F32(q) == IF q = 0 THEN <<0, 0, 0, 0>> ELSE
          LET m == IF q < 0 THEN -q ELSE q e == Log2(m) mant == ((m - Pow2[e + 1]) * Pow2[16]) \div Pow2[e + 1]   \* bits 8 to 22 of the encoding
              ex == e - 2 + 127 s == IF q < 0 THEN 128 ELSE 0
          IN <<0, mant % 256, (mant \div 256) + 128 * (ex % 2), (ex \div 2) + s>>
F16(q) == IF q = 0 THEN <<0, 0>> ELSE
          LET m == IF q < 0 THEN -q ELSE q e == Log2(m) mant == ((m - Pow2[e + 1]) * Pow2[11]) \div Pow2[e + 1]
              ex == e - 2 + 15 s == IF q < 0 THEN 128 ELSE 0
          IN <<mant % 256, (mant \div 256) + 4 * (ex % 32) + s>>
(* the integer that stores a channel value (float types: the value itself, in quarters) *)
Enc(t, x) == CASE t = "sn8" -> Sat(Rint4(x * 127), -128, 127) [] t = "un8" -> Rint4(Sat(x, 0, 4) * 255)
               [] t = "sn16" -> Sat(Rint4(x * 32767), -32768, 32767) [] t = "un16" -> Rint4(Sat(x, 0, 4) * 65535)
               [] t = "s8" -> Sat(x, -128, 127) [] t = "u8" -> Sat(x, 0, 255)
               [] t = "s16" -> Sat(x, -32768, 32767) [] t = "u16" -> Sat(x, 0, 65535) [] OTHER -> x
(* and its bytes *)
Code(t, x) == CASE t = "f32" -> F32(x) [] t = "f16" -> F16(x) [] OTHER -> Little(Enc(t, x), ChSize(t))
Color(f, c) == LET s == Stored(f[1]) z == ChSize(f[2]) IN [i \in 1..(Len(s) * z) |-> Code(f[2], c[s[1 + (i - 1) \div z]])[1 + ((i - 1) % z)]]
=============================================================================
