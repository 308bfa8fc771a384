----------------------------- MODULE LocalsTrace -----------------------------
(* Acceptor: every recorded execution of a program of LocalsGen (a line of     *)
(* TRACES, one element of ev per kernel) obeys Locals.                         *)
EXTENDS Locals, TLC, Json, IOUtils
VARIABLES tr, pos
Traces == ndJsonDeserialize(IOEnv.TRACES)
TInit == tr \in 1..Len(Traces) /\ pos = 1
TNext == pos <= Len(Traces[tr].ev) /\ Good(Traces[tr].ev[pos]) /\ pos' = pos + 1 /\ UNCHANGED tr
Report == /\ pos = Len(Traces[tr].ev) + 1 => PrintT(<<"ACC", tr>>)
          /\ "PROGRESS" \in DOMAIN IOEnv => PrintT(<<"POS", tr, pos>>)
=============================================================================
