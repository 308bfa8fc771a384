-------------------------------- MODULE Access -------------------------------
(* What a kernel may touch: live allocations, their permissions, and the       *)
(* ranges the host has mapped. An access is [k, sp, off, n, ...]: kind, the     *)
(* object its pointer was made from, the offset from its start, bytes.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Reads(k) == k \in {"ld", "vl", "hl", "sl", "at", "cx"}
Writes(k) == k \in {"st", "vs", "hs", "ss", "at", "cx"}
(* objects: [size, alive, flag]; flag "rw" | "ro" | "wo"                        *)
Inside(o, off, n) == o.alive /\ off >= 0 /\ off + n <= o.size
(* maps: [o, off, n, kind]; kind "r": for reading only                          *)
Meets(m, off, n) == off < m.off + m.n /\ m.off < off + n
(* the reports an access causes: sets of <<what, bytes>>                        *)
AccessReports(objs, maps, a) ==
  LET o == objs[a.sp] IN
  IF ~Inside(o, a.off, a.n) THEN {<<x, a.n>> : x \in (IF Reads(a.k) THEN {"read"} ELSE {}) \cup (IF Writes(a.k) THEN {"write"} ELSE {})}
  ELSE (IF Reads(a.k) /\ o.flag = "wo" THEN {<<"wo", 0>>} ELSE {})
       \cup (IF Writes(a.k) /\ a.does /\ o.flag = "ro" THEN {<<"ro", 0>>} ELSE {})
       \cup (IF Reads(a.k) /\ \E m \in maps : m.o = a.sp /\ m.kind # "r" /\ Meets(m, a.off, a.n) THEN {<<"mapw", 0>>} ELSE {})
       \cup (IF Writes(a.k) /\ a.does /\ \E m \in maps : m.o = a.sp /\ Meets(m, a.off, a.n) THEN {<<"mapped", 0>>} ELSE {})
(* and what it does to the bytes of the object, if anything                     *)
Fill(b, off, n, v) == TLCEval([i \in DOMAIN b |-> IF i > off /\ i <= off + n THEN v ELSE b[i]])
Same(b, off, n, v) == \A i \in (off + 1)..(off + n) : b[i] = v
After(objs, b, a) ==
  IF ~Writes(a.k) \/ ~Inside(objs[a.sp], a.off, a.n) THEN b
  ELSE IF a.k = "cx" THEN (IF Same(b, a.off, a.n, a.cmp) THEN Fill(b, a.off, a.n, a.v) ELSE b)
  ELSE Fill(b, a.off, a.n, a.v)
Seen(objs, b, a) == IF Reads(a.k) /\ Inside(objs[a.sp], a.off, a.n) THEN SubSeq(b, a.off + 1, a.off + a.n) ELSE <<>>
=============================================================================
