------------------------------- MODULE ProgramMC -------------------------------
(* All histories of a few programs over three small sources.                    *)
EXTENDS Program
CONSTANTS MaxProgs, MaxKerns, MaxOps
VARIABLES n
K(nm, c, e) == [n |-> nm, c |-> c, ext |-> e, extra |-> 1, rq |-> 0, hint |-> 0, vec |-> ""]
U == << [ks |-> <<K("a", 1, "h")>>, fs |-> <<>>, bad |-> FALSE, hdr |-> FALSE, gv |-> TRUE],
        [ks |-> <<>>, fs |-> <<[n |-> "h", c |-> 3]>>, bad |-> FALSE, hdr |-> FALSE, gv |-> FALSE],
        [ks |-> <<K("a", 2, "h")>>, fs |-> <<[n |-> "h", c |-> 3]>>, bad |-> FALSE, hdr |-> FALSE, gv |-> FALSE] >>
Opts == {[m |-> m, un |-> FALSE, env |-> -1, bad |-> b, std2 |-> TRUE] : m \in {-1, 2}, b \in {""}} \cup {[m |-> -1, un |-> FALSE, env |-> -1, bad |-> "macro", std2 |-> TRUE]}
MInit == units = U /\ progs = <<>> /\ kerns = <<>> /\ n = 0
Live == {p \in 1..Len(progs) : ~progs[p].rel}
LiveK == {k \in 1..Len(kerns) : kerns[k].live}
Room == Len(progs) < MaxProgs
MNext == n < MaxOps /\ n' = n + 1 /\
  \/ Room /\ \E u \in 1..3 : Source(u)
  \/ \E p \in Live, o \in Opts, w \in {1, 4} : progs[p].kind # "linked" /\ (progs[p].kind = "binary" => w = 4 /\ progs[p].type = 4) /\ Build(p, o, -1, w)
  \/ Room /\ \E p, q \in Live, lib \in BOOLEAN : Link(IF p = q THEN <<p>> ELSE <<p, q>>, lib)
  \/ Room /\ \E p \in Live : Reload(p)
  \/ \E p \in Live : Len(kerns) < MaxKerns /\ progs[p].type = 4 /\ CreateKernel(p, "a")
  \/ \E k \in LiveK : (progs[kerns[k].p].g = <<>> \/ \A u \in DOMAIN progs[kerns[k].p].g : progs[kerns[k].p].g[u] < 10 * u + 2) /\ Run(k)
  \/ \E k \in LiveK : ReleaseKernel(k)
  \/ \E p \in Live : ReleaseProgram(p)
(* contents belong to success, and only to it *)
Content == \A p \in 1..Len(progs) : (progs[p].st \in {"ok", "bin"}) = progs[p].mod.on /\ (progs[p].st \in {"none", "err"} => progs[p].type = 0)
(* the contents of a source program are those its last successful build alone gives, whatever came before *)
LastOnly == \A p \in 1..Len(progs) : progs[p].kind = "source" /\ progs[p].st = "ok" => progs[p].mod = Compiled(progs[p].src, progs[p].last.o, progs[p].last.hv)
(* a kernel's name stays defined in its program as long as the kernel exists *)
Kept == \A k \in LiveK : progs[kerns[k].p].st = "ok" /\ \E x \in progs[kerns[k].p].mod.ks : x.n = kerns[k].n /\ Resolved(progs[kerns[k].p].mod, x)
(* contents never define a name twice *)
OneName == \A p \in 1..Len(progs) : LET m == progs[p].mod IN \A x, y \in m.ks : x.n = y.n => x = y
(* linking sources 1 and 2 computes what source 3, where both are together, computes (with its constant) *)
Split == \A p, q \in 1..Len(progs) :
           LET a == progs[p].mod b == progs[q].mod IN
           (a.us = {1, 2} /\ b.us = {3} /\ progs[p].type = 4) =>
             LET x == KernelNamed(a, "a") y == KernelNamed(b, "a") IN
             (Fun(a, "h").c = Fun(b, "h").c /\ x.tab[1] = y.tab[1]) => Result(a, Fresh(a), x, <<3>>) + 1 = Result(b, Fresh(b), y, <<3>>) + 11
(* running changes only variables, and only upwards *)
Vars == \A p \in 1..Len(progs) : \A u \in progs[p].mod.gs : progs[p].g[u] >= 10 * u
================================================================================
