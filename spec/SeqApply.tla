------------------------------ MODULE SeqApply ------------------------------
(***************************************************************************)
(* The sequential apply object of the C library: what its public calls may  *)
(* do.  An object o is                                                      *)
(*    d       decoder state after the o.fed patch bytes fed so far          *)
(*    sink    the to-stream as written through the write callback           *)
(*    fed     patch bytes fed                                               *)
(*    failed  a call has failed                                             *)
(*    fin     finalized                                                     *)
(* The environment e of an object is a record with                          *)
(*    base    the from-image                                                *)
(*    patch   the patch (its declared size is Len(patch))                   *)
(*    lz      plain bytes of an LZMA body, lzbad: the stream is damaged     *)
(*    hw, hl  heatshrink parameters the library is built for                *)
(* and Final is the meaning of the whole patch.                             *)
(*                                                                          *)
(* The library may write a byte of the to-image as soon as it is determined *)
(* and at the latest in the finalize call: how much one call writes is left *)
(* open (an implementation may buffer), what is written is not.             *)
(***************************************************************************)
EXTENDS PatchCodec

\* Result codes of the public interface.
NotImplemented == -1
BadPatchType == -3
BadCompression == -4
LzmaDecode == -7
CorruptPatch == -9
IoFailed == -10
ShortHeader == -18
NotEnough == -19
StepSetFailed == -22
StepGetFailed == -23
AlreadyFailed == -24
CorruptOverflow == -25
CrleKind == -26
HsHeader == -27

CodeOf(st) ==
    CASE st = "notimpl"  -> {NotImplemented}
      [] st = "corrupt"  -> {CorruptPatch}
      [] st = "io"       -> {IoFailed}
      [] st = "overflow" -> {CorruptOverflow}
      [] st = "crlekind" -> {CrleKind}
      [] st = "hshdr"    -> {HsHeader}
      [] st = "badtype"  -> {BadPatchType}
      [] st = "badcomp"  -> {BadCompression}
      [] OTHER           -> -99..-1

\* The codes of a failed callback (v: what the callback returned).  An
\* in-place apply may hand on the code of a memory callback as it is.
FaultCodes(inp, fault, v) ==
    CASE fault = "S" -> {StepSetFailed}
      [] fault = "G" -> {StepGetFailed, IoFailed}
      [] inp /\ fault \in {"R", "W", "E"} -> {IoFailed, v}
      [] OTHER -> {IoFailed}

NewObject(kind) ==
    [d |-> DInit(kind), sink |-> <<>>, fed |-> 0, failed |-> FALSE, fin |-> FALSE,
     faulted |-> FALSE, quiet |-> FALSE]

IsError(d) == d.st \notin {"run", "done"}

FeedTo(o, e, n) == Feed(o.d, e.base, e.patch, o.fed + 1, o.fed + n, e.lz, e.hw, e.hl)

\* A negative result needs a reason.  (An implementation knows the declared
\* patch size, so it may refuse a patch that is going to end too early.)
Reason(d, e, final) == IsError(d) \/ ~WellFormed(final) \/ (final.comp = 1 /\ e.lzbad)

\* The part of the to-image that may have been written.
PrefixOf(w, d) == IsPrefix(w, d.out)

-----------------------------------------------------------------------------
(* process: n bytes, result res, bytes written wr, callback failure fault     *)
(* ("-" = none).  exact: error codes are judged too.                          *)
ProcessOk(o, e, final, n, res, wr, fault, frv, ncb, exact) ==
    LET d2 == FeedTo(o, e, n)
        s2 == o.sink \o wr
    IN IF o.failed
       THEN /\ wr = <<>>
            /\ n > 0 => res < 0
            /\ (exact /\ n > 0) => res = AlreadyFailed
       ELSE IF fault # "-"
       THEN /\ res < 0
            /\ exact => res \in FaultCodes(FALSE, fault, frv)
            /\ PrefixOf(s2, d2)
       ELSE /\ PrefixOf(s2, d2)
            /\ res <= 0
            /\ res < 0 => Reason(d2, e, final)
            /\ (exact /\ res < 0 /\ IsError(d2) /\ d2.comp # 1) => res \in CodeOf(d2.st)
            \* Nothing happens after the end.
            /\ o.d.st = "done" /\ o.sink = o.d.out /\ o.d.comp # 1 =>
                    /\ res = 0 /\ wr = <<>>
                    \* (a decompressor may have held back the last adjustment)
                    /\ exact /\ (o.d.comp = 0 \/ o.quiet) => ncb = 0

ProcessTo(o, e, n, res, wr, fault, ncb) ==
    IF o.failed THEN o
    ELSE [o EXCEPT !.quiet = @ \/ (o.d.st = "done" /\ n > 0 /\ ncb = 0),
                    !.d = FeedTo(o, e, n), !.fed = @ + n, !.sink = @ \o wr,
                   !.failed = (res < 0), !.faulted = @ \/ fault # "-"]

-----------------------------------------------------------------------------
Complete(o, e, s2) ==
    /\ o.d.st = "done"
    /\ s2 = o.d.out
    /\ Len(s2) = o.d.tosize

\* Success is only ever reported for the complete image, and it is reported
\* when the whole of a well-formed patch has been fed.
FinalizeOk(o, e, final, res, wr, fault, frv, exact) ==
    LET s2 == o.sink \o wr
    IN IF o.failed
       THEN /\ wr = <<>> /\ res < 0
            /\ exact => res = AlreadyFailed
       ELSE IF fault # "-"
       THEN res < 0 /\ PrefixOf(s2, o.d) /\ (exact => res \in FaultCodes(FALSE, fault, frv))
       ELSE /\ PrefixOf(s2, o.d)
            /\ res >= 0 =>
                 /\ Complete(o, e, s2)
                 /\ res = o.d.tosize
                 /\ (o.d.comp = 0 => o.d.surplus = 0 /\ o.fed = Len(e.patch))
            /\ (o.fed = Len(e.patch) /\ WellFormed(final) /\ ~(final.comp = 1 /\ e.lzbad)) =>
                    res = final.tosize
            /\ (exact /\ o.fed = 0) => res = ShortHeader
            /\ (exact /\ o.fed > 0 /\ o.d.st = "run" /\ o.d.comp # 1) =>
                    IF o.fed < Len(e.patch) THEN res = NotEnough
                    ELSE res \in {NotEnough, CorruptPatch}

FinalizeTo(o, res, wr) ==
    [o EXCEPT !.sink = @ \o wr, !.fin = TRUE, !.failed = @ \/ (res < 0)]

-----------------------------------------------------------------------------
(* dump and restore.  A slot holds the object as it was.                      *)
CanDump(o, dyn) == o.d.hdr # "body" \/ o.d.comp \in ({0, 2} \cup IF dyn THEN {} ELSE {4})

DumpOk(o, res, fault, frv, dyn, exact) ==
    IF fault # "-" THEN res < 0 /\ (exact => res \in FaultCodes(FALSE, fault, frv))
    ELSE /\ res <= 0
         /\ (CanDump(o, dyn) /\ ~o.failed) => res = 0
         /\ (~CanDump(o, dyn) /\ ~o.failed) => res < 0

\* The offsets a restored object reports.  Before the header is complete the
\* library may ask for the patch from the beginning.
RestoreOk(slot, res, po, to, fault, frv, exact) ==
    IF fault # "-" THEN res < 0 /\ (exact => res \in FaultCodes(FALSE, fault, frv))
    ELSE IF slot.failed THEN res <= 0
    ELSE /\ res = 0
         /\ to = Len(slot.sink)
         /\ \/ po = slot.fed
            \/ po = 0 /\ slot.d.hdr # "body" /\ slot.sink = <<>>

\* Everything the to-stream got after the dump is dropped, the patch is read
\* from the reported offset.
RestoreTo(slot, po) ==
    IF po = slot.fed \/ slot.failed THEN slot ELSE [NewObject("seq") EXCEPT !.d.lib = slot.d.lib]

OffsetsOk(o, po, to) == o.failed \/ (po = o.fed /\ to = Len(o.sink))
=============================================================================
