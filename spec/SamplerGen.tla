----------------------------- MODULE SamplerGen ------------------------------
(* Random histories of kernels that read, write and query images.             *)
EXTENDS Sampler, Json
CONSTANTS MaxOps
VARIABLES ims, h, step, phase
gvars == <<ims, h>>
Skip == UNCHANGED gvars
Log(x) == h' = Append(h, x)
Norms == {"sn8", "un8", "sn16", "un16"}
Floats == {"f32", "f16"}
Signed == {"s8", "s16", "s32"}
Fn(t) == IF t \in Norms \cup Floats THEN "f" ELSE IF t \in Signed THEN "i" ELSE "ui"
Raw(t, k) == CASE t = "sn8" -> (k % 256) - 128 [] t = "un8" -> k % 256 [] t = "sn16" -> IF k % 5 = 0 THEN -32768 + (k % 3) ELSE (k % 65536) - 32768 [] t = "un16" -> k % 65536
               [] t \in Floats -> (k % 801) - 400 [] t = "s8" -> (k % 256) - 128 [] t = "u8" -> k % 256 [] t = "s16" -> (k % 65536) - 32768
               [] t = "u16" -> k % 65536 [] t = "s32" -> k - 50000 [] OTHER -> k
Make(r) ==
  LET ty == NthSeq(<<"1D", "1DB", "1DA", "2D", "2D", "2DA", "3D", "3D">>, r[3]) f == Fmt(r[4], r[5])
      w == Rng(IF ty \in {"1D", "1DB"} THEN 9 ELSE 6, r[6]) y == IF ty \in {"1D", "1DB"} THEN 1 ELSE Rng(5, r[7]) z == IF ty \in {"2DA", "3D"} THEN Rng(4, r[8]) ELSE 1
      px == TLCEval([i \in 1..(w * y * z) |-> [c \in 1..NumCh(f[1]) |-> Raw(f[2], (r[9] + (i * 7919 + c * 104729) * (1 + (r[10] % 97))) % 100000)]])
  IN /\ ims' = Append(ims, [ty |-> ty, w |-> w, y |-> y, z |-> z, f |-> f, px |-> px])
     /\ Log([o |-> "make", ty |-> ty, w |-> w, y |-> y, z |-> z, f |-> f, px |-> px])
(* what the layers, of which there are n, look like as a coordinate *)
LayerC(k, n, int) == IF int THEN 16 * ((k % (n + 4)) - 2) ELSE (k % (16 * (n + 3))) - 24
Coords(im, s, int, k) ==
  LET R(d) == k[d]
      C(d) == LET size == Size(im)[d] IN
              IF s.mode = "none"
              THEN LET lo == IF s.lin THEN 8 ELSE 0 n == 16 * size - (IF s.lin THEN 16 ELSE 0) IN
                   IF n <= 0 THEN -1 ELSE IF int THEN 16 * (R(d) % size) ELSE IF s.norm THEN R(d) % 16 ELSE lo + (R(d) % n)
              ELSE IF int THEN 16 * ((R(d) % (size + 6)) - 3)
              ELSE IF s.norm THEN (IF R(d) % 4 = 0 THEN (R(d) \div 4) % 16 ELSE ((R(d) \div 4) % 97) - 40)
              ELSE IF R(d) % 5 = 0 THEN 16 * (((R(d) \div 5) % (size + 1)) - 0) ELSE ((R(d) \div 5) % (16 * (size + 5))) - 40
  IN [d \in 1..3 |-> IF d <= Dims(im.ty) THEN C(d) ELSE IF d = Dims(im.ty) + 1 /\ im.ty \in {"1DA", "2DA"} THEN LayerC(R(d), Layers(im), int) ELSE 0]
Points(im, s, int, r) == [i \in 1..8 |-> Coords(im, s, int, [d \in 1..3 |-> (r[11 + ((i + d) % 16)] * (2 * i + 1) + r[27 + ((i * d) % 5)] * d) % 99991])]
ReadOp(r) ==
  LET k == 1 + (r[2] % Len(ims)) im == ims[k] t == im.f[2]
      how == IF im.ty = "1DB" \/ r[4] % 6 = 0 THEN "plain" ELSE IF r[4] % 6 = 1 THEN "int" ELSE "float"     \* no sampler; integer or float coordinates
      norm == how = "float" /\ r[5] % 2 = 0
      mode == IF how = "plain" THEN "none" ELSE IF norm THEN NthSeq(<<"repeat", "mirror", "repeat", "mirror", "edge", "clamp", "none">>, r[6]) ELSE NthSeq(<<"edge", "clamp", "edge", "clamp", "none">>, r[6])
      lin == how = "float" /\ t \in (Norms \cup Floats) /\ r[7] % 2 = 0
      s == [norm |-> norm, mode |-> mode, lin |-> lin]
      int == how # "float"
  IN \E P \in {SelectSeq(Points(im, s, int, r), LAMBDA c : Defined(im, s, c) /\ (how = "plain" => \A d \in 1..3 : c[d] >= 0 /\ (d = Dims(im.ty) + 1 => c[d] < 16 * Layers(im))))} :
     IF P = <<>> THEN Skip
     ELSE UNCHANGED ims /\ Log([o |-> "read", i |-> k, fn |-> Fn(t), how |-> how, s |-> s, lit |-> r[8] % 3 = 0 /\ im.ty = "2D" /\ how = "float" /\ Fn(t) = "f", p |-> P,
                                v |-> [j \in 1..Len(P) |-> Read(im, s, P[j])]])
WriteOp(r) ==
  LET k == 1 + (r[2] % Len(ims)) im == ims[k] t == im.f[2]
      p == <<r[3] % Size(im)[1], r[4] % Size(im)[2], r[5] % Size(im)[3]>> l == r[6] % Layers(im)
      col == TLCEval([c \in 1..4 |-> CASE t \in Norms -> (r[7 + c] % 13) - 6 [] t \in Floats -> (r[7 + c] % 801) - 400
                               [] t \in Signed -> (IF r[12] % 2 = 0 THEN r[7 + c] - 50000 ELSE (r[7 + c] % 300) - 150)
                               [] OTHER -> IF r[12] % 2 = 0 THEN r[7 + c] ELSE r[7 + c] % 300])
  IN \E W \in {Write(im, p, l, col)} :
     /\ ims' = [ims EXCEPT ![k] = W]
     /\ Log([o |-> "write", i |-> k, fn |-> Fn(t), p |-> IF im.ty = "1DA" THEN <<p[1], l, 0>> ELSE IF im.ty = "2DA" THEN <<p[1], p[2], l>> ELSE p, c |-> col, px |-> W.px])
QueryOp(r) == LET k == 1 + (r[2] % Len(ims)) im == ims[k]
              IN UNCHANGED ims /\ Log([o |-> "query", i |-> k, w |-> im.w, y |-> IF Dims(im.ty) > 1 THEN im.y ELSE 0, z |-> IF im.ty = "3D" THEN im.z ELSE 0, n |-> IF im.ty \in {"1DA", "2DA"} THEN Layers(im) ELSE 0])
Step(r) ==
  IF ims = <<>> \/ (Len(ims) < 4 /\ r[1] % 6 = 0) THEN Make(r)
  ELSE IF r[1] % 25 = 1 THEN QueryOp(r) ELSE IF r[1] % 4 = 2 THEN WriteOp(r) ELSE ReadOp(r)
Init == ims = <<>> /\ h = <<>> /\ step = 0 /\ phase = "run"
Next == /\ step' = step + 1
        /\ \E r \in {Draw(step)} :
           \/ phase = "run" /\ Len(h) < MaxOps /\ step < 3 * MaxOps /\ Step(r) /\ UNCHANGED phase
           \/ phase = "run" /\ (Len(h) >= MaxOps \/ step >= 3 * MaxOps) /\ UNCHANGED gvars /\ phase' = "done"
Emit == phase = "done" => PrintT(<<"T", ToJson([ops |-> h])>>)
=============================================================================
