-------------------------------- MODULE HsGen --------------------------------
(***************************************************************************)
(* All heatshrink streams of up to Max bytes over an alphabet, with what     *)
(* they decode to, for replay in the real decoder.                           *)
(***************************************************************************)
EXTENDS PatchCodec, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_DATA).cases
VARIABLES c, bytes, x
vars == <<c, bytes, x>>

Init == /\ c \in 1..Len(Cases)
        /\ bytes = Cases[c].head
        /\ x = FoldLeft(LAMBDA y, b: HsBits(y, b, Cases[c].w, Cases[c].l),
                        [d |-> [DInit("seq") EXCEPT !.ck = "tag"], o |-> <<>>], Cases[c].head)
Next == /\ Len(bytes) - Len(Cases[c].head) < Cases[c].more
        /\ \E b \in ToSet(Cases[c].alphabet) :
              bytes' = Append(bytes, b) /\ x' = HsBits(x, b, Cases[c].w, Cases[c].l)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Monotone == [][IsPrefix(x.o, x'.o)]_vars
\* Every output byte is a literal, an earlier byte or zero.
Emit == PrintT("CASE " \o ToJson(<<c, bytes, x.o>>))
=============================================================================
