----------------------------- MODULE TraceParts -----------------------------
(***************************************************************************)
(* Recorded uses of the parts of the Python package against their             *)
(* specifications.  One session is one use:                                   *)
(*   pack, unpack       size numbers (Numbers)                                *)
(*   crlec              CRLE compressor: pieces in, pieces out                 *)
(*   crled              CRLE decompressor: a history of calls                  *)
(*   reader             the patch reader over a CRLE or plain stream           *)
(*   sa                 suffix array builders (SuffixArray)                    *)
(*   delta, add         delta generator and byte addition (EditScript)         *)
(*   bscreate, bsapply  BSDIFF40 patches (Bsdiff40)                            *)
(***************************************************************************)
EXTENDS EditScript, BsMeaning, Json, IOUtils
Nu == INSTANCE Numbers
Sa == INSTANCE SuffixArray

T == JsonDeserialize(IOEnv.TRACE_DATA).sessions
VARIABLES s, i
vars == <<s, i>>
Position == <<s, i>>

-----------------------------------------------------------------------------
(* Numbers.  A value outside the 64 bits a packer takes must be refused.      *)
Pack(e) ==
    IF ~e.fits THEN e.res = "raise"
    ELSE /\ e.res = "ok"
         /\ CASE e.fn \in {"size", "usize"} -> e.bytes = Nu!PackSigned([neg |-> e.neg, bits |-> e.bits])
              [] OTHER -> e.bytes = Nu!PackUnsigned(e.bits)

\* bytes presented, value and number of bytes used
Unpack(e) ==
    IF Nu!End(e.bytes) = 0 THEN e.res = "raise"
    ELSE IF ~e.fits THEN TRUE       \* more than the 64 bits of this reader
    ELSE /\ e.res = "ok"
         /\ LET v == IF e.fn = "crle" THEN [neg |-> FALSE, used |-> Nu!UnpackUnsigned(e.bytes).used,
                                            bits |-> Nu!UnpackUnsigned(e.bytes).bits]
                     ELSE Nu!UnpackSigned(e.bytes)
            IN /\ e.neg = v.neg /\ e.bits = v.bits
               /\ e.used = -1 \/ (e.used = v.used /\ e.read = v.used)

-----------------------------------------------------------------------------
(* CRLE: what a stream (or a beginning of it) denotes.                        *)
\* (In pieces, so that the recursion stays shallow.)
Plain(p, lo, hi, x) ==
    IF hi - lo < 100 THEN Crle(x, <<>>, p, lo, hi)
    ELSE FoldLeft(LAMBDA y, j: Crle(y, <<>>, p, lo + 100 * (j - 1), Min2(lo + 100 * j - 1, hi)),
                  x, [j \in 1..CeilDiv(hi - lo + 1, 100) |-> j])
Fresh == [DInitPy("seq") EXCEPT !.hdr = "body", !.comp = 2, !.ph = "ed", !.left = 500000000]
Denotes(p) == Plain(p, 1, Len(p), Fresh)

CrleC(e) ==
    /\ e.res = "ok"
    /\ LET x == Denotes(FlattenSeq(e.out))
       IN x.st = "run" /\ x.ck = "idle" /\ x.out = FlattenSeq(e.data)

\* st = [x, fed, got, ok, over]; x the decoder fed so far.
CrleCall(st, e, ev) ==
    IF ~st.ok \/ st.over THEN [st EXCEPT !.ok = st.ok /\ ~st.over]
    ELSE LET fed == Min2(st.fed + ev.n, Len(e.stream))
             x == Plain(e.stream, st.fed + 1, fed, st.x)
             got == st.got \o ev.w
             bad == x.st # "run"
             all == fed = Len(e.stream) /\ got = x.out /\ x.ck = "idle" /\ ~bad
             ok == /\ Len(ev.w) <= ev.size
                   /\ IsPre(got, x.out)
                   /\ ev.exc => (bad \/ st.end)       \* (nothing may be asked for after the end)
                   /\ ~ev.exc =>
                        /\ ev.eof = all
                        /\ ev.needs => (got = x.out \/ bad)
                        \* it goes on
                        /\ (~ev.eof /\ ~ev.needs) => (Len(got) < Len(x.out) \/ bad)
                        /\ (ev.size > 0 /\ Len(ev.w) = 0 /\ Len(st.got) < Len(st.x.out)) => bad
         IN [x |-> x, fed |-> fed, got |-> got, ok |-> ok, over |-> ev.exc,
             end |-> ev.eof /\ ~ev.exc]

CrleD(e) ==
    LET r == FoldLeft(LAMBDA st, ev: CrleCall(st, e, ev),
                      [x |-> Fresh, fed |-> 0, got |-> <<>>, ok |-> TRUE, over |-> FALSE, end |-> FALSE], e.ev)
    IN r.ok

\* The patch reader: exactly the bytes asked for, or an exception because there
\* are not that many or the stream is damaged.
Reader(e) ==
    LET r == FoldLeft(LAMBDA st, ev:
                        IF ~st.ok THEN st
                        ELSE IF ev.exc
                        THEN [st EXCEPT !.ok = st.x.st # "run" \/ Len(st.got) + ev.size > Len(st.x.out), !.exc = TRUE]
                        ELSE [st EXCEPT !.got = @ \o ev.w,
                                        !.ok = ~st.exc /\ Len(ev.w) = ev.size /\ IsPre(st.got \o ev.w, st.x.out)],
                      [got |-> <<>>, ok |-> TRUE, exc |-> FALSE,
                       x |-> IF e.comp = 2 THEN Denotes(e.stream) ELSE [Fresh EXCEPT !.out = e.stream]], e.ev)
    IN /\ r.ok
       /\ ~r.exc => (e.eof = (r.got = r.x.out /\ r.x.ck = "idle" /\ r.x.st = "run"))

-----------------------------------------------------------------------------
SaOk(e) ==
    /\ e.res = "ok"
    /\ e.sais = e.divsufsort
    /\ IF Len(e.text) <= 40 THEN Sa!IsSuffixArray(e.text, e.sais) ELSE Sa!RankCheck(e.text, e.sais, e.inv)

Delta(e) == e.res = "ok" /\ Script(e.chunks, e.from, e.to)

\* free: neither operand is still held afterwards
Add(e) == e.free /\ IF Len(e.a) = Len(e.b) THEN e.res = "ok" /\ e.out = AddBytes(e.a, e.b) ELSE e.res = "raise"

-----------------------------------------------------------------------------
Judge(e) ==
    CASE e.op = "pack" -> Pack(e)
      [] e.op = "unpack" -> Unpack(e)
      [] e.op = "crlec" -> CrleC(e)
      [] e.op = "crled" -> CrleD(e)
      [] e.op = "reader" -> Reader(e)
      [] e.op = "sa" -> SaOk(e)
      [] e.op = "delta" -> Delta(e)
      [] e.op = "add" -> Add(e)
      [] e.op = "bscreate" -> BsCreate(e)
      [] e.op = "bsapply" -> BsApply(e)

Init == s \in 1..Len(T) /\ i = 0
Check == i = 0 /\ Judge(T[s]) /\ i' = 1 /\ UNCHANGED s
Done == i = 1 /\ UNCHANGED vars
Next == Check \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
