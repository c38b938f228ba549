-------------------------------- MODULE MCSeq --------------------------------
(***************************************************************************)
(* The sequential apply object with a to-file, dumps, losses and restores,   *)
(* callback failures, as SeqApply allows it: an implementation may write     *)
(* determined bytes early or late.  Whatever it does, a success means that   *)
(* the to-file holds the image, and the file is always a prefix of it.       *)
(*                                                                           *)
(* Mode "ok" is the contract; "lostpos" (the reported patch offset is one    *)
(* short), "keepfile" (the to-file is not repositioned) and "early" (success *)
(* without the last byte) are broken and must be refuted.                    *)
(***************************************************************************)
EXTENDS SeqApply, Json, IOUtils

CONSTANTS Mode

Cases == JsonDeserialize(IOEnv.TRACE_DATA).cases

VARIABLES c, o, file, slot, fin, res, lost
vars == <<c, o, file, slot, fin, res, lost>>

E == Cases[c]
Final == Meaning("seq", E.base, E.patch, <<>>, 8, 7)
None == [d |-> DInit("seq"), sink |-> <<>>, fed |-> -1, failed |-> FALSE, fin |-> FALSE,
         faulted |-> FALSE, quiet |-> FALSE]

Init ==
    /\ c \in 1..Len(Cases)
    /\ o = NewObject("seq") /\ file = <<>> /\ slot = None /\ fin = FALSE /\ res = 0 /\ lost = 0

\* What may be written by a call that leaves the decoder at d.
Pieces(d) == {SubSeq(d.out, Len(o.sink) + 1, n) : n \in Len(o.sink)..Len(d.out)}

Process ==
    /\ ~fin /\ ~o.failed
    /\ \E n \in {1, 2} : o.fed + n <= Len(E.patch) /\
        LET d2 == FeedTo(o, E, n)
        IN \E w \in Pieces(d2), fault \in {"-", "w"}, r \in {0, -1} :
             /\ ProcessOk(o, E, Final, n, r, w, fault, 0, 1, FALSE)
             /\ o' = ProcessTo(o, E, n, r, w, fault, 1)
             /\ file' = file \o w
    /\ UNCHANGED <<c, slot, fin, res, lost>>

Dump ==
    /\ ~fin /\ ~o.failed
    /\ DumpOk(o, 0, "-", 0, FALSE, FALSE)
    /\ slot' = o
    /\ UNCHANGED <<c, o, file, fin, res, lost>>

\* Everything volatile is lost; the to-file is cut at the reported offset.
Restore ==
    /\ ~fin /\ slot.fed >= 0 /\ lost < 2
    /\ \E po \in {slot.fed, 0, slot.fed - 1}, to \in 0..Len(file) :
        /\ IF Mode = "lostpos" THEN slot.fed > 0 /\ po = slot.fed - 1 /\ to = Len(slot.sink)
           ELSE RestoreOk(slot, 0, po, to, "-", 0, FALSE)
        /\ o' = IF Mode = "lostpos" THEN [slot EXCEPT !.fed = po] ELSE RestoreTo(slot, po)
        /\ file' = IF Mode = "keepfile" THEN file ELSE SubSeq(file, 1, to)
    /\ lost' = lost + 1
    /\ UNCHANGED <<c, slot, fin, res>>

Finalize ==
    /\ ~fin
    /\ \E w \in Pieces(o.d), r \in {-1, Len(Final.out)} :
        /\ IF Mode = "early" THEN r >= 0 /\ o.d.st = "done"
           ELSE FinalizeOk(o, E, Final, r, w, "-", 0, FALSE)
        /\ file' = file \o w /\ res' = r
    /\ fin' = TRUE
    /\ UNCHANGED <<c, o, slot, lost>>

Next == Process \/ Dump \/ Restore \/ Finalize
Spec == Init /\ [][Next]_vars

FilePrefix == (o.sink # <<>> \/ file # <<>>) => IsPrefix(file, Final.out)
Success == (fin /\ res >= 0) => file = Final.out /\ res = Len(Final.out)
\* Feeding all of a well-formed patch without a fault ends in success.
NoFalseAlarm ==
    (fin /\ res < 0 /\ WellFormed(Final) /\ o.fed = Len(E.patch)) => o.failed \/ o.faulted
=============================================================================
