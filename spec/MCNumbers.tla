------------------------------ MODULE MCNumbers ------------------------------
(***************************************************************************)
(* The two definitions of size numbers (digit by digit in Numbers, and       *)
(* byte-driven over integers in PatchCodec) say the same, packing and         *)
(* unpacking are inverse, and the packed form is the shortest that unpacks    *)
(* to its value.                                                             *)
(***************************************************************************)
EXTENDS Numbers
P == INSTANCE PatchCodec
CONSTANT Values
VARIABLE x, neg
vars == <<x, neg>>

RECURSIVE BitsOf(_)
BitsOf(v) == IF v = 0 THEN <<>> ELSE <<v % 2>> \o BitsOf(v \div 2)

Signed(v, n) == [neg |-> n, bits |-> BitsOf(v)]
Run(p) == FoldLeft(LAMBDA v, b: P!VByte(v, b), P!VInit, p)
RunU(p) == FoldLeft(LAMBDA v, b: P!UByte(v, b), P!VInit, p)

Init == x \in Values /\ neg \in BOOLEAN
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Same == LET e == PackSigned(Signed(x, neg)) IN
        /\ e = P!PackSize(IF neg THEN -x ELSE x)
        /\ End(e) = Len(e)
        /\ LET v == Run(e) IN ~v.more /\ ~v.ovf /\ P!VVal(v) = IF neg THEN -x ELSE x
        /\ UnpackSigned(e) = [used |-> Len(e), bits |-> BitsOf(x), neg |-> neg /\ x # 0]
SameU == LET e == PackUnsigned(BitsOf(x)) IN
         /\ e = P!PackUSize(x)
         /\ LET v == RunU(e) IN ~v.more /\ ~v.ovf /\ v.acc = x
         /\ UnpackUnsigned(e) = [used |-> Len(e), bits |-> BitsOf(x)]
\* Padding changes the length only; a cut number has no end.
Padded == LET e == PackSigned(Signed(x, neg))
              q == [e EXCEPT ![Len(e)] = @ + 128] \o <<128, 0>>
          IN /\ UnpackSigned(q).bits = BitsOf(x) /\ UnpackSigned(q).used = Len(e) + 2
             /\ Len(e) > 1 => End(SubSeq(e, 1, Len(e) - 1)) = 0
             /\ e[Len(e)] # 0 \/ Len(e) = 1
=============================================================================
