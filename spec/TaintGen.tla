-------------------------------- MODULE TaintGen -------------------------------
(* Random histories of host writes and kernels over two buffers. Opt: kernels  *)
(* for optimised builds: nothing uninitialised but memory, no statement whose  *)
(* operands could cancel out; then only what is left in memory is exact.       *)
EXTENDS Taint, Rnd, Json
CONSTANTS MaxOps, MaxStmts, Opt
VARIABLES N, Lz, g, h, hist, phase, step
HH(x) == ((x % 32749) * 65003 + (x \div 32749) * 31 + 12345) % 1000003
Hash(x) == TLCEval(HH(HH(HH(x))))
Kid(x, i) == Hash(x * 37 + i)
Kinds == <<"con", "con", "con", "mov", "op", "op", "cmp", "shr", "shl", "byt", "setb", "half", "selc", "selt", "sels", "flt", "math", "math2", "fn", "fst", "setp", "swap", "loop",
           "ast", "ald", "adn", "sst", "sld", "tld", "scp", "szr", "hfn", "vmk", "vset", "vget", "vrev", "vadd", "vshf",
           "lst", "lld", "gst", "gld", "gld", "gsb", "hsf", "hst", "hld", "vst", "vld", "aad", "axc", "lad", "br", "br", "sw", "brc", "arg", "arl", "arp", "awg", "awp", "sh", "cpl", "cpg", "cpls", "cpgs", "asr", "sext", "ul64", "bit", "rev8", "vcal", "vmka", "vext", "vext", "brf">>
OptKinds == <<"con", "mov", "op", "op", "op", "selc", "sels", "vsel", "vsel", "vsel", "fn", "fst", "setp", "swap", "loop", "ast", "ald", "adn", "sst", "sld", "tld", "scp", "szr", "hfn", "vmk", "vset", "vget", "vrev", "vadd", "vshf",
              "lst", "lld", "gst", "gld", "gld", "gld", "hsf", "hst", "hld", "vst", "vld", "aad", "axc", "sh", "cpl", "cpg", "cpls", "cpgs", "vcal", "vmka", "vext">>
Plain(k, i) == [k |-> k, i |-> i, j |-> 1, m |-> 1, n |-> 1, e |-> i, o |-> 0]
Stmt(x) == [k |-> IF Opt THEN OptKinds[Rng(Len(OptKinds), Kid(x, 1))] ELSE Kinds[Rng(Len(Kinds), Kid(x, 1))], i |-> Rng(4, Kid(x, 2)), j |-> Rng(4, Kid(x, 3)), m |-> Rng(4, Kid(x, 4)), n |-> Rng(3, Kid(x, 5)), e |-> Rng(4, Kid(x, 6)), o |-> IF Opt THEN 0 ELSE Kid(x, 7) % 6]
(* the variables, and most of the rest, start initialised or not *)
Prog(x) == LET w == Kid(x, 8) IN
  (IF Opt THEN [i \in 1..11 |-> Plain(IF i <= 4 THEN "con" ELSE IF i <= 8 THEN "ast" ELSE IF i = 9 THEN "szr" ELSE IF i = 10 THEN "scp" ELSE "vmk", IF i <= 4 THEN i ELSE IF i <= 8 THEN i - 4 ELSE 1)] ELSE
  SelectSeq([i \in 1..8 |-> [k |-> IF i <= 4 THEN "con" ELSE "ast", i |-> i, j |-> 1, m |-> 1, n |-> 1, e |-> IF i > 4 THEN i - 4 ELSE 1, o |-> 0]], LAMBDA y : (w \div (2 ^ (IF y.k = "con" THEN y.i ELSE 4 + y.e))) % 4 # 0 /\ (w % 3 # 0)))
  \o [i \in 1..Between(3, MaxStmts, Kid(x, 9)) |-> Stmt(Kid(x, 10 + i))]
(* what stays uninitialised, item by item and word by word *)
Left(b) == [i \in 1..N |-> [e \in B |-> SetToSortSeq(b[i - 1][e], <)]]
Init == N = 1 /\ Lz = 1 /\ g = <<>> /\ h = <<>> /\ hist = <<>> /\ phase = "new" /\ step = 0
K0 == [g |-> g, h |-> h]
Host(b, r) ==
  LET off == r[4] % (16 * N) len == 1 + (r[5] % (16 * N - off)) how == NthSeq(<<"write", "fill", "map", "mapinv", "maprw", "copy", "rect">>, r[6])
      aligned == how = "fill" o == IF aligned THEN 4 * (off \div 4) ELSE off n == IF aligned THEN 4 * ((len + 3) \div 4) ELSE len IN [b |-> b, how |-> how, off |-> o, len |-> n]
Next == step' = step + 1 /\ \E r \in {Draw(step)} :
          \/ phase = "new" /\ LET l == Rng(3, r[1]) n == l * Rng(3, r[2]) IN
                 /\ N' = n /\ Lz' = l /\ g' = TLCEval(Buf(n, r[3] % 3 # 0)) /\ h' = TLCEval(Buf(n, r[4] % 2 # 0)) /\ phase' = "run"
                 /\ hist' = <<[op |-> "start", n |-> n, l |-> l, g |-> r[3] % 3 # 0, h |-> r[4] % 2 # 0, arg |-> Opt \/ r[5] % 2 = 0, opt |-> IF Opt THEN NthSeq(<<"", "-O1", "-O2", "-O3">>, r[7]) ELSE "-cl-opt-disable", thr |-> Rng(3, r[6])]>>
          \/ /\ phase = "run" /\ Len(hist) <= MaxOps /\ UNCHANGED <<N, Lz>> /\ phase' = "run"
             /\ \/ r[1] % 100 < 55 /\ LET p == Prog(Hash(r[2] % 1000003)) f == Kernel(p, N, Lz, K0) IN g' = TLCEval(f.g) /\ h' = TLCEval(f.h) /\ hist' = Append(hist, [op |-> "kernel", prog |-> p, rep |-> f.rep, g |-> Left(f.g), h |-> Left(f.h)])
                \/ r[1] % 100 \in 55..85 /\ LET w == Host(IF r[3] % 3 = 0 THEN "h" ELSE "g", r) IN
                     /\ g' = (IF w.b = "g" THEN TLCEval(HostWrite(g, N, w.off, w.len)) ELSE g) /\ h' = (IF w.b = "h" THEN TLCEval(HostWrite(h, N, w.off, w.len)) ELSE h) /\ hist' = Append(hist, [op |-> "host"] @@ w)
                \/ r[1] % 100 > 85 /\ LET t == r[4] % 3 # 0 IN g' = TLCEval(Buf(N, t)) /\ h' = h /\ hist' = Append(hist, [op |-> "again", t |-> t])
          \/ phase = "run" /\ Len(hist) = MaxOps + 1 /\ phase' = "done" /\ UNCHANGED <<N, Lz, g, h, hist>>
Emit == phase = "done" => PrintT(<<"T", ToJson(hist)>>)
================================================================================
