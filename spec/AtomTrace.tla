------------------------------- MODULE AtomTrace -------------------------------
(* Acceptor: can the recorded operations on a word have been performed one at  *)
(* a time? Each line of TRACES: [init, fin, it]: it[i]: the operations of an   *)
(* item on this word in its order: <<operation, signed?, a, b, returned>>       *)
(* (returned: <<>> if not known).                                              *)
EXTENDS Atom, Json, IOUtils
CONSTANTS Beam
VARIABLES tr, v, pos
Traces == ndJsonDeserialize(IOEnv.TRACES)
It == Traces[tr].it
E(i) == It[i][pos[i]]
Res(i) == New([o |-> E(i)[1], s |-> E(i)[2], a |-> E(i)[3], b |-> E(i)[4]], v)
TInit == tr \in 1..Len(Traces) /\ v = Traces[tr].init /\ pos = [i \in 1..Len(Traces[tr].it) |-> 1]
Step(i) == v' = Res(i) /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ UNCHANGED tr
(* an operation that changes nothing may as well be performed at once *)
TNext == \E en \in {{i \in DOMAIN pos : pos[i] <= Len(It[i]) /\ E(i)[5] \in {v, <<>>}}} : \E idle \in {{i \in en : Res(i) = v}} :
           IF idle # {} THEN \E i \in {CHOOSE j \in idle : TRUE} : Step(i) ELSE \E i \in en : Step(i)
(* Where the recorded values leave many orders open, only Beam of the states    *)
(* reached with the same number of operations are looked at (by each worker);    *)
(* if no order is found then, the word is PRUNED, not rejected.                  *)
ASSUME \A t \in 1..Len(Traces) : TLCSet(2 * t, <<0, 0>>) /\ TLCSet(2 * t + 1, FALSE)
Level == FoldLeft(LAMBDA x, i : x + pos[i], 0, [j \in 1..Len(It) |-> j])
Count == IF TLCGet(2 * tr)[1] = Level THEN TLCGet(2 * tr)[2] ELSE 0
InBeam == Count < Beam \/ (~TLCGet(2 * tr + 1) /\ TLCSet(2 * tr + 1, TRUE) /\ PrintT(<<"PRUNED", tr>>) /\ FALSE)
Done(i) == pos[i] = Len(It[i]) + 1
Report == /\ \E n \in {Count} : TLCSet(2 * tr, <<Level, n + 1>>)
          /\ ((\A i \in DOMAIN pos : Done(i)) /\ v = Traces[tr].fin) => PrintT(<<"ACC", tr>>)
          /\ "PROGRESS" \in DOMAIN IOEnv => PrintT(<<"POS", tr, FoldLeft(LAMBDA x, i : x + pos[i] - 1, 0, [j \in 1..Len(It) |-> j])>>)
================================================================================
