------------------------------ MODULE BsMeaning ------------------------------
(***************************************************************************)
(* What may come of creating and of applying a BSDIFF40 patch.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Bs == INSTANCE Bsdiff40
LOCAL Lower(a, b) == IF a < b THEN a ELSE b
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Slices(e) ==      \* the harness cut the blocks where the header says
    Len(e.patch) >= 32 =>
        LET cn == Bs!OffAt(e.patch, 8) dn == Bs!OffAt(e.patch, 16) left == Len(e.patch) - 32
            c == IF cn < 0 THEN 0 ELSE Lower(cn, left)
            d == IF dn < 0 THEN 0 ELSE Lower(dn, left - c)
        IN (cn >= 0 /\ dn >= 0) => e.cut = <<c, d>>
Ends(e) == {e.ctrlend, e.diffend, e.extraend}

BsCreate(e) ==
    /\ e.res = "ok" /\ e.same
    /\ Slices(e)
    /\ LET x == Bs!Bsdiff(e.from, e.patch, e.ctrl, e.diff, e.extra)
       IN x.st = "done" /\ x.to = Len(e.to) /\ x.out = e.to /\ Ends(e) = {"whole"}

BsApply(e) ==
    /\ e.res \in {"ok", "raise"}
    /\ e.same
    /\ Slices(e)
    /\ LET x == Bs!Bsdiff(e.from, e.patch, e.ctrl, e.diff, e.extra)
       IN \/ x.st = "open"
          \/ /\ (x.st = "done" /\ Ends(e) = {"whole"}) => e.res = "ok"
             /\ e.res = "ok" =>
                  /\ x.st = "done" /\ "broken" \notin Ends(e)
                  /\ e.ret = x.to /\ e.out = x.out
             /\ (e.res = "raise" /\ "broken" \notin Ends(e)) => IsPre(e.out, x.out)
=============================================================================
