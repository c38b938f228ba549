------------------------------ MODULE ScriptGen ------------------------------
(***************************************************************************)
(* All small edit scripts, sequential and in-place, encoded as uncompressed  *)
(* patches.  Records are added one at a time; a complete script is printed   *)
(* as a patch for replay in the real code.  The invariant RoundTrip says     *)
(* that decoding is the inverse of encoding.                                 *)
(*                                                                           *)
(* A case: kind, base, tosizes, maxdiff, maxextra, adjs, recs (records per   *)
(* script or segment), and for in-place scripts mem, seg, shift, from.       *)
(***************************************************************************)
EXTENDS PatchCodec, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_DATA).cases

VARIABLES c, to, body, out, fpos, nrec, sidx, fin
vars == <<c, to, body, out, fpos, nrec, sidx, fin>>

C(k) == Cases[k]
Inp == C(c).kind = "inp"
Seg == C(c).seg
Geo(t) == [DInit("inp") EXCEPT !.mem = C(c).mem, !.seg = C(c).seg, !.shift = C(c).shift,
                               !.fromsize = C(c).from, !.tosize = t]
Src == IF Inp THEN Shifted(Geo(to), C(c).base) ELSE C(c).base
End == IF Inp THEN Min2(to, (sidx + 1) * Seg) ELSE to
Low == IF Inp THEN (sidx + 1) * Seg ELSE 0

Header ==
    IF Inp
    THEN <<16>> \o PackSize(C(c).mem) \o PackSize(C(c).seg) \o PackSize(C(c).shift)
         \o PackSize(C(c).from) \o PackSize(to)
    ELSE <<0>> \o PackSize(to)

Init ==
    /\ c \in 1..Len(Cases)
    /\ to \in ToSet(C(c).tosizes)
    /\ sidx = 0
    /\ fpos = IF Inp THEN Max2(Seg, C(c).shift) ELSE 0
    /\ out = <<>> /\ nrec = 0
    /\ body = IF to = 0 THEN <<>> ELSE <<0>>
    /\ fin = (to = 0)

\* Contents are a function of the position: they tell a misplaced byte.
DiffByte(i) == IF i % 2 = 0 THEN 255 ELSE (3 * i) % 256
ExtraByte(i) == 200 + i

Record(nd, ne, adj) ==
    LET o == Len(out)
        diff == [i \in 1..nd |-> DiffByte(o + i)]
        extra == [i \in 1..ne |-> ExtraByte(o + nd + i)]
        out2 == out \o [i \in 1..nd |-> (diff[i] + Src[fpos + i]) % 256] \o extra
        rec == PackSize(nd) \o diff \o PackSize(ne) \o extra \o PackSize(adj)
        segdone == Len(out2) = End
        last == Len(out2) = to
    IN /\ out' = out2
       /\ fin' = last
       /\ IF segdone /\ ~last
          THEN /\ sidx' = sidx + 1 /\ nrec' = 0
               /\ body' = body \o rec \o <<0>>
               /\ fpos' = Max2((sidx + 2) * Seg, C(c).shift)
          ELSE /\ sidx' = sidx /\ nrec' = nrec + 1
               /\ body' = body \o rec
               /\ fpos' = fpos + nd + adj
       /\ UNCHANGED <<c, to>>

Next ==
    /\ ~fin
    /\ \E nd \in 0..C(c).maxdiff, ne \in 0..C(c).maxextra, adj \in ToSet(C(c).adjs) :
        /\ Len(out) + nd + ne <= End
        /\ nd > 0 => fpos >= Low /\ fpos + nd <= Len(Src)
        \* the last record of a script or segment may be as long as needed
        /\ nrec + 1 = C(c).recs => Len(out) + nd + ne = End
        /\ fpos + nd + adj >= 0
        /\ (Len(out) + nd + ne = End) => adj \in {0, C(c).adjs[1]}
        /\ Record(nd, ne, adj)

Spec == Init /\ [][Next]_vars

Patch == Header \o body
RoundTrip ==
    LET f == Meaning(C(c).kind, C(c).base, Patch, <<>>, 8, 7)
    IN /\ f.out = out
       /\ fin => WellFormed(f) /\ SafeReads(f)
       /\ ~fin => f.st = "run"

Emit == fin => PrintT("CASE " \o ToJson(<<c, Patch, out>>))
=============================================================================
