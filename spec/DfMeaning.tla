------------------------------ MODULE DfMeaning ------------------------------
(***************************************************************************)
(* What a sequential patch makes of a from-image, with or without a data      *)
(* format: the records applied to the from-image with the values of the       *)
(* blocks taken out, plus what the blocks say of them.                        *)
(***************************************************************************)
EXTENDS PatchCodec

DF == INSTANCE DataFormat

\* The contents of the patch; its image does not depend on the from-image yet.
Contents(e) == Feed([DInitPy("seq") EXCEPT !.free = TRUE, !.dfok = TRUE], <<>>, e.patch, 1, Len(e.patch), e.lz, 0, 0)

Whole(c, e) == /\ c.st = "done" /\ c.surplus = 0 /\ c.tosize > 0
               /\ (c.comp = 0 => c.rawsurplus = 0)
               /\ (c.comp = 2 => c.ck = "idle")
               /\ (Opaque(c.comp) => e.lzend = "whole")
Format(c) == LET l == SelectSeq(c.log, LAMBDA r: r[1] = "dn") IN IF l = <<>> THEN -1 ELSE l[1][2]

\* What the patch makes of the from-image.
Image(c, e) ==
    LET none == [ok |-> FALSE, out |-> <<>>, P |-> DF!NoPatch, n |-> 0]
    IN IF ~Whole(c, e) THEN none
       ELSE IF Format(c) = -1 THEN LET r == DF!Records(c.log, c.out, e.from) IN [ok |-> r.ok, out |-> r.out, P |-> DF!NoPatch, n |-> 0]
       ELSE LET f == DF!Encoded(Format(c), e.from, c.dfp, c.tosize)
                r == DF!Records(c.log, c.out, f.from)
            IN IF ~f.ok THEN [none EXCEPT !.P = f.P]
               ELSE [ok |-> r.ok, P |-> f.P, n |-> f.n,
                     out |-> [k \in 1..Len(r.out) |-> (r.out[k] + f.diff[k]) % 256]]
=============================================================================
