--------------------------------- MODULE Args ---------------------------------
(***************************************************************************)
(* Kernel objects and their arguments. Setting an argument changes one     *)
(* slot of one kernel object; enqueueing takes a snapshot of all slots;    *)
(* execution, in queue order, reports the snapshot.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES kern,   \* kern[k] = [t |-> kernel function, a |-> slots]; an unset slot is <<>>
          fifo,   \* snapshots of enqueued, unexecuted kernels
          ran     \* snapshots executed so far, in order
avars == <<kern, fifo, ran>>
Kerns == 1..Len(kern)

(* parameters of the two kernel functions: o output buffer, c char, s short, i int, l long, v int3,
   t struct, u uchar2, g global pointer, k constant pointer, m local memory, p image *)
Params(t) == IF t = "A" THEN <<"o", "c", "s", "i", "l", "v", "t", "g", "k", "m">>
             ELSE IF t = "B" THEN <<"o", "i", "g", "u", "m", "i">>
             ELSE <<"o", "p", "c", "p">>

AInit == kern = <<>> /\ fifo = <<>> /\ ran = <<>>
Make(t) == kern' = Append(kern, [t |-> t, a |-> [i \in 1..Len(Params(t)) |-> <<>>]]) /\ UNCHANGED <<fifo, ran>>
Clone(k) == kern' = Append(kern, kern[k]) /\ UNCHANGED <<fifo, ran>>
SetArg(k, i, v) == kern' = [kern EXCEPT ![k].a[i] = v] /\ UNCHANGED <<fifo, ran>>
Ready(k) == \A i \in 1..Len(kern[k].a) : kern[k].a[i] # <<>>
Launch(k) == Ready(k) /\ fifo' = Append(fifo, kern[k]) /\ UNCHANGED <<kern, ran>>
Reject == UNCHANGED avars
Drain == ran' = ran \o fifo /\ fifo' = <<>> /\ UNCHANGED kern
=============================================================================
