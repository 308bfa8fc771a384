-------------------------------- MODULE Program --------------------------------
(* Programs and their kernels. A program made from source has the contents      *)
(* (kernels, functions, program scope variables) that its last successful build *)
(* or compilation gave it; a failed one leaves nothing but a log. Linking joins *)
(* contents that do not clash. A binary is a copy of the contents. Kernels fix  *)
(* the contents of their program while they exist.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES units,  \* source texts: [ks, fs, bad, hdr, gv]
          progs,  \* program objects
          kerns   \* kernel objects: [p, n, live]
pvars == <<units, progs, kerns>>
NoMod == [ks |-> {}, fs |-> {}, us |-> {}, gs |-> {}, on |-> FALSE]
DefM == 5
(* options: [m |-> value of the macro M or -1, un |-> M undefined last, env |-> M from the environment or -1, bad |-> "" or why *)
(* the options are at fault, std2 |-> language version 2.0]                     *)
MOf(o) == IF o.env >= 0 THEN o.env ELSE IF o.un THEN DefM ELSE IF o.m >= 0 THEN o.m ELSE DefM
(* hv: the value the header defines; -1: the header is not found                *)
Compiles(U, o, hv) == ~U.bad /\ o.bad = "" /\ (U.hdr => hv >= 0) /\ (U.gv => o.std2)
Compiled(u, o, hv) ==
  LET U == units[u] M == MOf(o) IN
  [on |-> TRUE, us |-> {u}, gs |-> IF U.gv THEN {u} ELSE {},
   ks |-> {[n |-> U.ks[i].n, u |-> u, val |-> U.ks[i].c + 100 * M + (IF U.hdr THEN hv ELSE 0), tab |-> <<M, 7, U.ks[1].c>>, ext |-> U.ks[i].ext, nargs |-> U.ks[i].extra, rq |-> U.ks[i].rq, hint |-> U.ks[i].hint, vec |-> U.ks[i].vec] : i \in 1..Len(U.ks)},
   fs |-> {[n |-> U.fs[i].n, c |-> U.fs[i].c + M] : i \in 1..Len(U.fs)}]
Names(m) == {k.n : k \in m.ks} \cup {f.n : f \in m.fs}
Clash(a, b) == Names(a) \cap Names(b) # {} \/ a.us \cap b.us # {}
Join(a, b) == [on |-> TRUE, us |-> a.us \cup b.us, gs |-> a.gs \cup b.gs, ks |-> a.ks \cup b.ks, fs |-> a.fs \cup b.fs]
Fresh(m) == [u \in m.gs |-> 10 * u]          \* initial values of the program scope variables
Fun(m, n) == CHOOSE f \in m.fs : f.n = n
Resolved(m, k) == k.ext = "" \/ \E f \in m.fs : f.n = k.ext
(* what kernel k computes from its arguments when the program's variables are g *)
Result(m, g, k, args) ==
  k.val + k.tab[1 + (args[1] % 3)] + FoldLeft(LAMBDA s, x : s + x, 0, args) + (IF k.ext = "" THEN 0 ELSE Fun(m, k.ext).c + args[1]) + (IF k.u \in m.gs THEN g[k.u] + 1 ELSE 0)
Bump(m, g, k) == IF k.u \in m.gs THEN [g EXCEPT ![k.u] = @ + 1] ELSE g
VarSize(m) == 12 * Cardinality(m.us) + 4 * Cardinality(m.gs)
Attached(p) == {k \in 1..Len(kerns) : kerns[k].p = p /\ kerns[k].live}
KernelNamed(m, n) == CHOOSE k \in m.ks : k.n = n
(* ---- transitions: what the call returns is rc ---- *)
NewProg(q) == progs' = Append(progs, q)
Blank(u, kind) == [src |-> u, kind |-> kind, st |-> "none", type |-> 0, mod |-> NoMod, g |-> <<>>, rel |-> FALSE, last |-> 0]
Source(u) == NewProg(Blank(u, "source")) /\ UNCHANGED <<units, kerns>>
(* what: 4 an executable (build), 1 an object (compile) *)
BuildRc(p, o, hv, what) == IF Attached(p) # {} THEN -59 ELSE IF progs[p].kind = "binary" \/ Compiles(units[progs[p].src], o, hv) THEN 0 ELSE IF what = 4 THEN -11 ELSE -15
Build(p, o, hv, what) ==
  /\ UNCHANGED <<units, kerns>>
  /\ progs' = IF Attached(p) # {} THEN progs
              ELSE IF progs[p].kind = "binary" THEN [progs EXCEPT ![p] = [@ EXCEPT !.st = "ok", !.g = Fresh(progs[p].mod)]]
              ELSE IF Compiles(units[progs[p].src], o, hv)
                   THEN LET m == Compiled(progs[p].src, o, hv) IN [progs EXCEPT ![p] = [@ EXCEPT !.st = "ok", !.type = what, !.mod = m, !.g = Fresh(m), !.last = [o |-> o, hv |-> hv]]]
                   ELSE [progs EXCEPT ![p] = [@ EXCEPT !.st = "err", !.type = 0, !.mod = NoMod, !.g = <<>>, !.last = 0]]
Linkable(p) == progs[p].st \in {"ok", "bin"} /\ progs[p].type \in {1, 2}
Ready(ps) == \A i \in 1..Len(ps) : Linkable(ps[i])
Clashes(ps) == \E i, j \in 1..Len(ps) : i < j /\ Clash(progs[ps[i]].mod, progs[ps[j]].mod)
LinkRc(ps) == IF ps = <<>> THEN -30 ELSE IF ~Ready(ps) THEN -59 ELSE IF Clashes(ps) THEN -17 ELSE 0
Joined(ps) == FoldLeft(LAMBDA m, p : IF m.on THEN Join(m, progs[p].mod) ELSE progs[p].mod, NoMod, ps)
Link(ps, lib) == /\ UNCHANGED <<units, kerns>>
                 /\ IF LinkRc(ps) # 0 THEN UNCHANGED progs
                    ELSE LET m == Joined(ps) IN NewProg([src |-> 0, kind |-> "linked", st |-> "ok", type |-> IF lib THEN 2 ELSE 4, mod |-> m, g |-> Fresh(m), rel |-> FALSE, last |-> 0])
HasBinary(p) == progs[p].mod.on
Reload(p) == HasBinary(p) /\ UNCHANGED <<units, kerns>>
             /\ NewProg([src |-> 0, kind |-> "binary", st |-> "bin", type |-> progs[p].type, mod |-> progs[p].mod, g |-> Fresh(progs[p].mod), rel |-> FALSE, last |-> 0])
(* a kernel that calls a function which is nowhere defined cannot be created (with any error: 1) *)
CreateRc(p, n) == IF progs[p].st # "ok" THEN -45 ELSE IF ~\E k \in progs[p].mod.ks : k.n = n THEN -46 ELSE IF Resolved(progs[p].mod, KernelNamed(progs[p].mod, n)) THEN 0 ELSE 1
CreateKernel(p, n) == UNCHANGED <<units, progs>> /\ kerns' = IF CreateRc(p, n) = 0 THEN Append(kerns, [p |-> p, n |-> n, live |-> TRUE]) ELSE kerns
Run(k) == LET p == kerns[k].p IN UNCHANGED <<units, kerns>> /\ progs' = [progs EXCEPT ![p].g = Bump(progs[p].mod, @, KernelNamed(progs[p].mod, kerns[k].n))]
ReleaseKernel(k) == kerns' = [kerns EXCEPT ![k].live = FALSE] /\ UNCHANGED <<units, progs>>
ReleaseProgram(p) == progs' = [progs EXCEPT ![p].rel = TRUE] /\ UNCHANGED <<units, kerns>>
================================================================================
