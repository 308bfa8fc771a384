------------------------------- MODULE Sampler -------------------------------
(* How a sampler turns coordinates into pixels. Coordinates are integers, in   *)
(* sixteenths (of a pixel, or of the image when the sampler normalises).       *)
EXTENDS Fmt
Modes == {"none", "edge", "clamp", "repeat", "mirror"}
U(norm, c, size) == IF norm THEN c * size ELSE c
Tri(c) == LET m == c % 32 IN IF m <= 16 THEN m ELSE 32 - m      \* distance to the nearest even multiple of the image
Nearest(mode, norm, c, size) ==
  CASE mode = "none" -> U(norm, c, size) \div 16
    [] mode = "edge" -> Sat(U(norm, c, size) \div 16, 0, size - 1)
    [] mode = "clamp" -> Sat(U(norm, c, size) \div 16, -1, size)
    [] mode = "repeat" -> ((c % 16) * size) \div 16
    [] OTHER -> Sat((Tri(c) * size) \div 16, 0, size - 1)
(* the two neighbours, and the weight of the second one in sixteenths *)
Linear(mode, norm, c, size) ==
  LET u == CASE mode = "repeat" -> (c % 16) * size [] mode = "mirror" -> Tri(c) * size [] OTHER -> U(norm, c, size)
      f == (u - 8) \div 16
      w == (u - 8) % 16
  IN CASE mode = "none" -> [i |-> f, j |-> f + 1, w |-> w]
       [] mode = "edge" -> [i |-> Sat(f, 0, size - 1), j |-> Sat(f + 1, 0, size - 1), w |-> w]
       [] mode = "clamp" -> [i |-> Sat(f, -1, size), j |-> Sat(f + 1, -1, size), w |-> w]
       [] mode = "repeat" -> [i |-> IF f < 0 THEN f + size ELSE f, j |-> IF f + 1 > size - 1 THEN f + 1 - size ELSE f + 1, w |-> w]
       [] OTHER -> [i |-> Sat(f, 0, size - 1), j |-> Sat(f + 1, 0, size - 1), w |-> w]
Rint16(c) == LET n == c \div 16 m == c % 16 IN IF m < 8 THEN n ELSE IF m > 8 THEN n + 1 ELSE IF n % 2 = 0 THEN n ELSE n + 1
Layer(c, n) == Sat(Rint16(c), 0, n - 1)

(* ---- images: [ty, w, y, z, f, px]: px is the sequence of pixels, each the sequence of its stored channels ---- *)
Dims(ty) == CASE ty \in {"1D", "1DA", "1DB"} -> 1 [] ty \in {"2D", "2DA"} -> 2 [] OTHER -> 3
Layers(im) == CASE im.ty = "1DA" -> im.y [] im.ty = "2DA" -> im.z [] OTHER -> 1
Size(im) == CASE Dims(im.ty) = 1 -> <<im.w, 1, 1>> [] Dims(im.ty) = 2 -> <<im.w, im.y, 1>> [] OTHER -> <<im.w, im.y, im.z>>
PixelNo(im, p, l) == 1 + p[1] + im.w * (p[2] + Size(im)[2] * (p[3] + Size(im)[3] * l))
(* the number a value of 1 is represented by *)
Den(t) == CASE t = "sn8" -> 127 [] t = "un8" -> 255 [] t = "sn16" -> 32767 [] t = "un16" -> 65535 [] t \in {"f32", "f16"} -> 4 [] OTHER -> 1
Value(t, x) == CASE t = "sn8" -> Sat(x, -127, 127) [] t = "sn16" -> Sat(x, -32767, 32767) [] OTHER -> x
HasAlphaBorder(or) == or \in {"R", "RG", "LUMINANCE"}      \* the others: transparent black
(* channel c (1..4) of the pixel at p, relative to Den *)
Texel(im, p, l, c) ==
  LET or == im.f[1] t == im.f[2] sz == Size(im) IN
  IF \E d \in 1..3 : p[d] < 0 \/ p[d] >= sz[d] THEN (IF c = 4 /\ HasAlphaBorder(or) THEN Den(t) ELSE 0)
  ELSE LET px == im.px[PixelNo(im, p, l)]
           v == CASE or = "INTENSITY" -> px[1] [] or = "LUMINANCE" /\ c < 4 -> px[1]
                  [] OTHER -> LET S == {i \in 1..Len(Stored(or)) : Stored(or)[i] = c} IN IF or # "LUMINANCE" /\ S # {} THEN px[CHOOSE i \in S : TRUE] ELSE IF c = 4 THEN Den(t) ELSE 0
       IN Value(t, v)
Coord(im, co, d) == IF d <= Dims(im.ty) THEN co[d] ELSE 0
LayerOf(im, co) == IF im.ty = "1DA" THEN Layer(co[2], im.y) ELSE IF im.ty = "2DA" THEN Layer(co[3], im.z) ELSE 0
ReadNearest(im, s, co) ==
  LET p == [d \in 1..3 |-> IF d <= Dims(im.ty) THEN Nearest(s.mode, s.norm, co[d], Size(im)[d]) ELSE 0] l == LayerOf(im, co)
  IN [n |-> [c \in 1..4 |-> Texel(im, p, l, c)], d |-> Den(im.f[2])]
ReadLinear(im, s, co) ==
  LET q == [d \in 1..3 |-> IF d <= Dims(im.ty) THEN Linear(s.mode, s.norm, co[d], Size(im)[d]) ELSE [i |-> 0, j |-> 0, w |-> 0]]
      l == LayerOf(im, co)
      nd == Dims(im.ty)
      W(d, b) == IF d > nd THEN 1 ELSE IF b = 1 THEN q[d].w ELSE 16 - q[d].w
      T(a, b, c, ch) == IF (b = 1 /\ nd < 2) \/ (c = 1 /\ nd < 3) THEN 0
                        ELSE W(1, a) * W(2, b) * W(3, c) * Texel(im, <<IF a = 1 THEN q[1].j ELSE q[1].i, IF b = 1 THEN q[2].j ELSE q[2].i, IF c = 1 THEN q[3].j ELSE q[3].i>>, l, ch)
  IN [n |-> [ch \in 1..4 |-> T(0, 0, 0, ch) + T(1, 0, 0, ch) + T(0, 1, 0, ch) + T(1, 1, 0, ch) + T(0, 0, 1, ch) + T(1, 0, 1, ch) + T(0, 1, 1, ch) + T(1, 1, 1, ch)],
      d |-> Den(im.f[2]) * (CASE nd = 1 -> 16 [] nd = 2 -> 256 [] OTHER -> 4096)]
Read(im, s, co) == IF s.lin THEN ReadLinear(im, s, co) ELSE ReadNearest(im, s, co)
(* are the coordinates such that the result is defined? *)
Defined(im, s, co) == s.mode # "none" \/ \A d \in 1..Dims(im.ty) :
   LET u == U(s.norm, co[d], Size(im)[d]) IN IF s.lin THEN u >= 8 /\ u < 16 * Size(im)[d] - 8 ELSE u >= 0 /\ u < 16 * Size(im)[d]
(* ---- writes: colour (quarters for float and normalised types, else integers) at pixel p ---- *)
Pixel(f, col) == [i \in 1..Len(Stored(f[1])) |-> Enc(f[2], col[Stored(f[1])[i]])]
Write(im, p, l, col) == [im EXCEPT !.px[PixelNo(im, p, l)] = Pixel(im.f, col)]
=============================================================================
