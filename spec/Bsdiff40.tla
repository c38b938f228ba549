------------------------------ MODULE Bsdiff40 ------------------------------
(***************************************************************************)
(* Colin Percival's BSDIFF40 format.                                        *)
(*   0 magic  8 length of control block  16 length of diff block             *)
(*   24 length of the to-image  32 control, diff and extra block (bzip2)      *)
(* Numbers: 8 bytes, least significant first, top bit is the sign.            *)
(* bzip2 is opaque: the environment supplies the plain bytes of each block    *)
(* and whether it is "whole", "broken" (damaged or cut) or "open" (something   *)
(* follows its end).                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Big == 1073741824
Magic == <<66, 83, 68, 73, 70, 70, 52, 48>>

Off(b) == LET m == IF b[4] > 63 \/ b[5] + b[6] + b[7] + (b[8] % 128) > 0 THEN Big
                   ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
          IN IF b[8] >= 128 THEN -m ELSE m
OffAt(p, i) == Off(SubSeq(p, i + 1, i + 8))

\* A record: x = [st, out, d, e, f] with d, e the positions in the diff and
\* extra data, f the position in the from-image.
Rec(x, frm, to, ctrl, diff, extra, k) ==
    IF x.st # "run" \/ Len(x.out) >= to THEN x
    ELSE LET n == OffAt(ctrl, 24 * (k - 1)) m == OffAt(ctrl, 24 * (k - 1) + 8)
             a == OffAt(ctrl, 24 * (k - 1) + 16)
             y == [x EXCEPT !.recs = k]
         IN IF n < 0 \/ m < 0 \/ n > to - Len(x.out) THEN [y EXCEPT !.st = "bad"]
            ELSE IF x.d + n > Len(diff) THEN [y EXCEPT !.st = "missing"]
            ELSE IF n > 0 /\ x.f + n > Len(frm) THEN [y EXCEPT !.st = "io"]
            ELSE LET o == x.out \o [j \in 1..n |-> (diff[x.d + j] + frm[x.f + j]) % 256]
                     z == [y EXCEPT !.out = o, !.d = @ + n, !.f = @ + n]
                 IN IF m > to - Len(o) THEN [z EXCEPT !.st = "bad"]
                    ELSE IF x.e + m > Len(extra) THEN [z EXCEPT !.st = "missing"]
                    ELSE LET w == [z EXCEPT !.out = o \o SubSeq(extra, x.e + 1, x.e + m), !.e = @ + m]
                         IN IF a \in {Big, -Big} THEN [w EXCEPT !.st = "open"]
                            ELSE IF w.f + a < 0 THEN [w EXCEPT !.st = "io"]
                            ELSE [w EXCEPT !.f = @ + a]

\* The image and the fate of a patch.
Bsdiff(frm, p, ctrl, diff, extra) ==
    LET x0 == [st |-> "run", out |-> <<>>, d |-> 0, e |-> 0, f |-> 0, recs |-> 0, to |-> 0]
    IN IF Len(p) < 32 THEN [x0 EXCEPT !.st = "short"]
       ELSE IF SubSeq(p, 1, 8) # Magic THEN [x0 EXCEPT !.st = "magic"]
       ELSE LET cn == OffAt(p, 8) dn == OffAt(p, 16) to == OffAt(p, 24)
            IN IF cn < 0 \/ dn < 0 \/ to < 0 THEN [x0 EXCEPT !.st = "bad"]
               ELSE LET x == FoldLeft(LAMBDA x, k: Rec(x, frm, to, ctrl, diff, extra, k), [x0 EXCEPT !.to = to],
                                      [k \in 1..(Len(ctrl) \div 24) |-> k])
                    IN IF x.st # "run" THEN x
                       ELSE IF Len(x.out) < to THEN [x EXCEPT !.st = "missing"]
                       ELSE IF 24 * x.recs < Len(ctrl) \/ x.d < Len(diff) \/ x.e < Len(extra)
                       THEN [x EXCEPT !.st = "surplus"]
                       ELSE [x EXCEPT !.st = "done"]
=============================================================================
