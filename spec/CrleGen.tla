------------------------------- MODULE CrleGen -------------------------------
(***************************************************************************)
(* Every way of writing a given byte string as CRLE segments: scattered or    *)
(* repeated, any length, some empty segments, minimal or padded lengths.      *)
(* Each finished stream is checked to denote the string and printed for       *)
(* replay in the Python decompressor and the C patch reader.                  *)
(***************************************************************************)
EXTENDS PatchCodec, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_DATA).cases
VARIABLES c, stream, pos, nul, segs
vars == <<c, stream, pos, nul, segs>>

Plain == Cases[c].plain
\* A length with p superfluous bytes.
Length(n, p) == IF p = 0 THEN PackUSize(n)
                ELSE LET e == PackUSize(n) IN [e EXCEPT ![Len(e)] = @ + 128] \o Fill(p - 1, 128) \o <<0>>

Init == c \in 1..Len(Cases) /\ stream = <<>> /\ pos = 0 /\ nul = 0 /\ segs = 0

Scattered(n, p) ==
    /\ pos + n <= Len(Plain)
    /\ stream' = stream \o <<0>> \o Length(n, p) \o SubSeq(Plain, pos + 1, pos + n)
    /\ pos' = pos + n
Repeated(n, b, p) ==
    /\ pos + n <= Len(Plain)
    /\ \A k \in 1..n : Plain[pos + k] = b
    /\ stream' = stream \o <<1>> \o Length(n, p) \o <<b>>
    /\ pos' = pos + n

Next ==
    /\ segs < Cases[c].maxsegs
    /\ segs' = segs + 1 /\ UNCHANGED c
    /\ \E p \in ToSet(Cases[c].pads) :
         \/ \E n \in 1..Len(Plain) :
              (Scattered(n, p) \/ (pos < Len(Plain) /\ Repeated(n, Plain[pos + 1], p))) /\ UNCHANGED nul
         \/ /\ nul < Cases[c].nulls /\ nul' = nul + 1
            /\ (Scattered(0, p) \/ Repeated(0, 77, p))
Spec == Init /\ [][Next]_vars

\* A patch body denotes itself when there is nothing to add.
Decoded == LET x == Crle([DInit("seq") EXCEPT !.hdr = "body", !.comp = 2, !.ph = "ed", !.left = 100000],
                         <<>>, stream, 1, Len(stream))
           IN x.out = SubSeq(Plain, 1, pos) /\ x.ck = "idle" /\ x.st = "run"
Emit == pos = Len(Plain) => PrintT("CASE " \o ToJson(<<c, stream>>))
=============================================================================
