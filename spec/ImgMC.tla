-------------------------------- MODULE ImgMC --------------------------------
(* All regions of all small images, in the whole and in the padded layout:    *)
(* the bytes of a region are its own, lie inside the image exactly if every   *)
(* dimension does, and writing a region and reading it back is the identity.  *)
EXTENDS Mem, TLC
VARIABLE c
Dims == {<<w, y, z>> : w \in 1..3, y \in 1..3, z \in 1..2}
Init == /\ objs = <<>> /\ mem = <<>> /\ host = <<>> /\ maps = <<>>
        /\ \E d \in Dims, p \in {1, 2, 4}, ox \in 0..2, oy \in 0..2, oz \in 0..1, rx \in 1..3, ry \in 1..3, rz \in 1..2, pad \in {0, 1} :
             c = [d |-> d, p |-> p, o |-> <<ox, oy, oz>>, g |-> <<rx, ry, rz>>, pad |-> pad]
Next == UNCHANGED <<vars, c>>
RP0 == (c.d[1] + c.pad) * c.p
SP0 == RP0 * (c.d[2] + c.pad)
Size == SP0 * c.d[3]
Q == Rect([o |-> <<c.o[1] * c.p, c.o[2], c.o[3]>>, g |-> <<c.g[1] * c.p, c.g[2], c.g[3]>>, rp |-> RP0, sp |-> SP0])
Ok == \A i \in 1..3 : c.o[i] + c.g[i] <= c.d[i]
(* a region inside every dimension lies inside the image; one outside would touch other pixels or leave the image *)
InImage == Ok => Inside(Q, Size)
Pixels == {((z * (c.d[2] + c.pad) + y) * (c.d[1] + c.pad) + x) * c.p + k : x \in c.o[1]..(c.o[1] + c.g[1] - 1), y \in c.o[2]..(c.o[2] + c.g[2] - 1), z \in c.o[3]..(c.o[3] + c.g[3] - 1), k \in 0..(c.p - 1)}
Exact == Ok => SetOf(Q) = Pixels /\ Cardinality(Pixels) = Len(Q)
RoundTrip == Ok => LET v == [i \in 1..Len(Q) |-> 100 + i] d == Put([i \in 1..Size |-> 0], Q, 0, v)
                   IN Get(d, Q, 0) = v /\ \A i \in 1..Size : (i - 1) \notin Pixels => d[i] = 0
(* the layers of an array of 1D images are the rows of its region *)
Layers == c.d[3] = 1 /\ c.g[3] = 1 /\ c.o[3] = 0 => Q = Rect([o |-> <<c.o[1] * c.p, 0, c.o[2]>>, g |-> <<c.g[1] * c.p, 1, c.g[2]>>, rp |-> RP0, sp |-> RP0])
=============================================================================
