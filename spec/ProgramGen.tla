------------------------------- MODULE ProgramGen ------------------------------
(* Random histories of builds, compilations, links, reloads, kernels and runs.  *)
EXTENDS Program, Rnd, Json
CONSTANTS MaxOps, MaxProgs, MaxKerns
VARIABLES h, phase, step
HH(x) == ((x % 32749) * 65003 + (x \div 32749) * 31 + 12345) % 1000003
Hash(x) == TLCEval(HH(HH(HH(x))))
Kid(x, i) == Hash(x * 37 + i)
NU == 4
UName(u) == <<"a", "b", "c", "d">>[u]
Unit(x, u) ==
  LET nk == IF u = 1 THEN Rng(2, Kid(x, 1)) ELSE Kid(x, 1) % 3
      nf == IF nk = 0 THEN Rng(2, Kid(x, 2)) ELSE Kid(x, 2) % 3
      kn(i) == IF Kid(x, 10 + i) % 100 < 80 THEN "k" \o UName(u) \o ToString(i) ELSE "shared" \o ToString(i)
      fn(i) == IF i = 1 /\ Kid(x, 20 + i) % 100 < 88 THEN "h" \o UName(u) ELSE "hs" \o ToString(i)
  IN [ks |-> [i \in 1..nk |-> [n |-> kn(i), c |-> Kid(x, 30 + i) % 50, ext |-> NthSeq(<<"", "", "ha", "hb", "hc", "hd", "hs2">>, Kid(x, 40 + i)), extra |-> 1 + (Kid(x, 50 + i) % 3), rq |-> NthSeq(<<0, 0, 2, 4>>, Kid(x, 60 + i)), hint |-> NthSeq(<<0, 0, 3>>, Kid(x, 80 + i)), vec |-> NthSeq(<<"", "", "int", "uint4", "float4", "double2", "uchar16", "long", "ushort8", "char3", "float">>, Kid(x, 90 + i))]],
      fs |-> [i \in 1..nf |-> [n |-> fn(i), c |-> Kid(x, 70 + i) % 50]],
      bad |-> Kid(x, 3) % 100 < 4, hdr |-> Kid(x, 4) % 100 < 25, gv |-> nk > 0 /\ Kid(x, 5) % 100 < 35]
Opt(x) ==
  [m |-> IF Kid(x, 1) % 5 < 3 THEN Kid(x, 2) % 10 ELSE -1, un |-> Kid(x, 3) % 12 = 0, env |-> IF Kid(x, 4) % 12 = 0 THEN Kid(x, 5) % 10 ELSE -1,
   bad |-> IF Kid(x, 6) % 100 < 86 THEN "" ELSE NthSeq(<<"macro", "unknown", "stray", "nofile", "badstd">>, Kid(x, 7)), std2 |-> Kid(x, 8) % 5 # 0, lay |-> Kid(x, 9) % 10000]
Live == {p \in 1..Len(progs) : ~progs[p].rel}
LiveK == {k \in 1..Len(kerns) : kerns[k].live}
(* what can be seen of program p in the next state *)
View(p) == LET q == progs'[p] IN
  [p |-> p, kind |-> q.kind, st |-> q.st, type |-> q.type, exe |-> q.st = "ok",
   names |-> IF q.st = "ok" THEN SetToSeq({k.n : k \in q.mod.ks}) ELSE <<>>, size |-> IF q.st \in {"ok", "bin"} THEN VarSize(q.mod) ELSE 0,
   bin |-> q.mod.on]
Views(ps) == [i \in 1..Len(ps) |-> View(ps[i])]
Log(r, ps) == h' = Append(h, r @@ [see |-> Views(ps)])
Skip == UNCHANGED <<pvars, h>>
Other(r) == IF Live = {} THEN <<>> ELSE <<Nth(Live, r)>>
Room == Len(progs) < MaxProgs
DoSource(r) == IF ~Room THEN Skip ELSE LET u == Rng(NU, r[3]) IN Source(u) /\ Log([o |-> "source", u |-> u, rc |-> 0, lay |-> r[4] % 1000], <<Len(progs) + 1>>)
Buildable == {p \in Live : progs[p].kind = "source" \/ (progs[p].kind = "binary" /\ progs[p].type = 4)}
DoBuild(r, what) ==
  LET S == {p \in Buildable : what = 4 \/ progs[p].kind = "source"}
      F == {p \in S : Attached(p) = {}} F2 == {p \in F : \E k \in 1..Len(kerns) : kerns[k].p = p} T == IF F2 # {} /\ r[11] % 3 # 0 THEN F2 ELSE IF F # {} /\ r[9] % 4 # 0 THEN F ELSE S IN
  IF S = {} THEN Skip ELSE
  LET p == Nth(T, r[3]) o == Opt(Hash(r[4])) hv == IF what = 4 \/ r[5] % 5 = 0 THEN -1 ELSE r[6] % 1000 IN
  Build(p, o, hv, what) /\ Log([o |-> IF what = 4 THEN "build" ELSE "compile", p |-> p, opt |-> o, hv |-> hv, lay |-> r[7] % 1000, cb |-> r[8] % 2, rc |-> BuildRc(p, o, hv, what)], <<p>> \o Other(r[10]))
DoLink(r) ==
  LET S == {p \in Live : progs[p].kind # "binary" \/ progs[p].type \in {1, 2}} L == {p \in S : Linkable(p)}
      A == IF L # {} /\ r[3] % 8 # 0 THEN L ELSE S
      \* mostly programs that do not clash
      Grow(s, p) == IF p \in Range(s) \/ (r[4] % 4 # 0 /\ Linkable(p) /\ \E i \in 1..Len(s) : Clash(progs[s[i]].mod, progs[p].mod)) THEN s ELSE Append(s, p)
      ord == Ordering(A, r[5]) ps0 == FoldLeft(Grow, <<>>, ord) ps == IF Len(ps0) > Rng(4, r[6]) THEN SubSeq(ps0, 1, Rng(4, r[6])) ELSE ps0 qs == IF r[8] % 25 = 0 THEN <<>> ELSE ps
      lib == r[7] % 4 = 0 IN
  IF ~Room \/ S = {} \/ \E i \in 1..Len(ps) : progs[ps[i]].type = 4 THEN Skip
  ELSE Link(qs, lib) /\ Log([o |-> "link", ps |-> qs, lib |-> lib, rc |-> LinkRc(qs), cb |-> r[9] % 2, id |-> Len(progs) + 1], (IF LinkRc(qs) = 0 THEN <<Len(progs) + 1>> ELSE <<>>) \o Other(r[10]))
DoReload(r) == LET S == {p \in Live : HasBinary(p)} IN
  IF ~Room \/ S = {} THEN Skip ELSE LET p == Nth(S, r[3]) IN Reload(p) /\ Log([o |-> "reload", p |-> p, rc |-> 0], <<Len(progs) + 1, p>>)
DoBadBinary(r) == UNCHANGED pvars /\ Log([o |-> "badbin", lay |-> r[3] % 1000, rc |-> -42], Other(r[4]))
(* kernels come from executables (what objects and libraries offer is left open) *)
Exes == {p \in Live : progs[p].st \in {"none", "err"} \/ (progs[p].st = "ok" /\ progs[p].type = 4)}
Info(m, k) == [nargs |-> k.nargs + 1, rq |-> k.rq, hint |-> k.hint, vec |-> k.vec]
AllNames == {"ka1", "kb1", "kc1", "kd1", "shared1", "ha", "hs2", "nothere", ""}
DoKernel(r) == LET E == {p \in Exes : progs[p].st = "ok"} E2 == {p \in E : progs[p].mod.gs # {} /\ \E k \in 1..Len(kerns) : kerns[k].p = p} X == IF E2 # {} /\ r[8] % 3 = 0 THEN E2 ELSE IF E # {} /\ r[6] % 5 # 0 THEN E ELSE Exes IN
  IF X = {} \/ Cardinality(LiveK) >= MaxKerns THEN Skip ELSE
  LET p == Nth(X, r[3]) N == {k.n : k \in progs[p].mod.ks} n == IF N # {} /\ r[4] % 6 # 0 THEN Nth(N, r[5]) ELSE Nth(AllNames, r[5]) rc == CreateRc(p, n) IN
  CreateKernel(p, n) /\ Log([o |-> "kernel", p |-> p, n |-> n, rc |-> rc, id |-> Len(kerns) + 1, info |-> IF rc = 0 THEN Info(progs[p].mod, KernelNamed(progs[p].mod, n)) ELSE [nargs |-> 0, rq |-> 0, hint |-> 0, vec |-> ""]], Other(r[7]))
DoAll(r) == IF Exes = {} THEN Skip ELSE LET p == Nth(Exes, r[3]) ns == SetToSeq({k.n : k \in progs[p].mod.ks}) IN
  IF Cardinality(LiveK) + Len(ns) > MaxKerns THEN Skip ELSE
  LET rc == IF progs[p].st # "ok" THEN -45 ELSE IF \A i \in 1..Len(ns) : CreateRc(p, ns[i]) = 0 THEN 0 ELSE 1 IN
  /\ UNCHANGED <<units, progs>>
  /\ kerns' = IF rc = 0 THEN kerns \o [i \in 1..Len(ns) |-> [p |-> p, n |-> ns[i], live |-> TRUE]] ELSE kerns
  /\ Log([o |-> "kernels", p |-> p, rc |-> rc, ns |-> ns, ids |-> [i \in 1..Len(ns) |-> Len(kerns) + i]], Other(r[4]))
Mod(k) == progs[kerns[k].p].mod
Kn(k) == KernelNamed(Mod(k), kerns[k].n)
DoRun(r) == LET S == {k \in LiveK : TRUE} IN
  IF S = {} THEN Skip ELSE LET k == Nth(S, r[3]) args == [i \in 1..Kn(k).nargs |-> r[3 + i] % 100] IN
  Run(k) /\ Log([o |-> "run", k |-> k, args |-> args, rq |-> Kn(k).rq, rc |-> 0, value |-> Result(Mod(k), progs[kerns[k].p].g, Kn(k), args)], Other(r[9]))
DoClone(r) == IF LiveK = {} \/ Cardinality(LiveK) >= MaxKerns THEN Skip ELSE
  LET k == Nth(LiveK, r[3]) IN UNCHANGED <<units, progs>> /\ kerns' = Append(kerns, kerns[k]) /\ Log([o |-> "clone", k |-> k, id |-> Len(kerns) + 1, rc |-> 0], Other(r[4]))
DoFreeK(r) == IF LiveK = {} THEN Skip ELSE LET B == {k \in LiveK : progs[kerns[k].p].kind = "binary"} k == IF B # {} /\ r[5] % 2 = 0 THEN Nth(B, r[3]) ELSE Nth(LiveK, r[3]) IN ReleaseKernel(k) /\ Log([o |-> "freek", k |-> k, rc |-> 0], Other(r[4]))
DoFreeP(r) == IF Cardinality(Live) < 3 THEN Skip ELSE LET p == Nth(Live, r[3]) IN ReleaseProgram(p) /\ Log([o |-> "freep", p |-> p, rc |-> 0], <<>>)
Init == units = <<>> /\ progs = <<>> /\ kerns = <<>> /\ h = <<>> /\ phase = "new" /\ step = 0
Next == step' = step + 1 /\ \E r \in {Draw(step)} :
  \/ phase = "new" /\ phase' = "go" /\ units' = TLCEval([u \in 1..NU |-> Unit(Hash(r[u]), u)]) /\ UNCHANGED <<progs, kerns, h>>
  \/ phase = "go" /\ Len(h) >= MaxOps /\ phase' = "done" /\ UNCHANGED <<pvars, h>>
  \/ phase = "go" /\ Len(h) < MaxOps /\ phase' = phase /\
     LET w == r[1] % 100 IN
     CASE w < 10 \/ progs = <<>> -> DoSource(r) [] w < 22 -> DoBuild(r, 4) [] w < 36 -> DoBuild(r, 1) [] w < 48 -> DoLink(r) [] w < 53 -> DoReload(r) [] w < 55 -> DoBadBinary(r)
       [] w < 65 -> DoKernel(r) [] w < 69 -> DoAll(r) [] w < 87 -> DoRun(r) [] w < 89 -> DoClone(r) [] w < 97 -> DoFreeK(r) [] OTHER -> DoFreeP(r)
Emit == phase = "done" => PrintT(<<"T", ToJson([units |-> units, ops |-> h])>>)
Content == \A p \in 1..Len(progs) : (progs[p].st \in {"ok", "bin"}) = progs[p].mod.on
Kept == \A k \in LiveK : \E x \in progs[kerns[k].p].mod.ks : x.n = kerns[k].n
================================================================================
