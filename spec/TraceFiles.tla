------------------------------ MODULE TraceFiles ------------------------------
(***************************************************************************)
(* The file interfaces of the C library and the command line tool: one        *)
(* session is one use, with the files before and after it.                     *)
(*   kind     "seq" or "inp"                                                   *)
(*   from     the from-file (seq) or memory file (inp), patch, dest: what is    *)
(*            there: "file", "missing", "dir"; dest also "full" (no space) and    *)
(*            "limit" (no file may grow beyond e.limit bytes)                    *)
(*   base     contents of the from-file or the memory file                       *)
(*   ok, ret  success or not, the result (the tool only says whether)             *)
(*   after    contents of the to-file (seq) or the memory file (inp) afterwards   *)
(***************************************************************************)
EXTENDS PatchCodec, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE_DATA).sessions
VARIABLES s, i
vars == <<s, i>>

\* The memory as the applier sees it: a short memory file may grow.
TooShort(m, e) == e.kind = "inp" /\ m > Len(e.base) /\ m > 20000
Padded(m, e) == IF e.kind = "inp" /\ m > Len(e.base) /\ ~TooShort(m, e) THEN e.base \o Fill(m - Len(e.base), 0) ELSE e.base
MemOf(e) == Feed([DInit(e.kind) EXCEPT !.free = TRUE], <<>>, e.patch, 1, Len(e.patch), <<>>, 8, 7).mem
What(e) == LET mem == IF e.kind = "inp" THEN MemOf(e) ELSE 0
           IN Meaning(e.kind, Padded(mem, e), e.patch, e.lz, 8, 7)

Present(e) == e.from = "file" /\ e.pat = "file" /\ (e.kind = "inp" \/ e.dest = "file")
\* The patch is there, right, and the result fits.
Must(m, e) ==
    /\ Present(e) \/ (e.from = "file" /\ e.pat = "file" /\ e.dest = "limit" /\ m.tosize <= e.limit)
    /\ m.st = "done" /\ m.surplus = 0 /\ m.rawsurplus = 0 /\ ~e.lzbad
    /\ e.kind = "inp" => (Len(e.base) >= m.mem /\ SafeReads(m))
\* Success is possible at all.
May(m, e) ==
    /\ e.pat = "file" /\ e.patch # <<>>
    /\ \/ e.kind = "seq" /\ e.from \in {"file", "dir"} /\ e.dest \in {"file", "full", "limit"}
       \/ e.kind = "inp" /\ e.from \in {"file", "full"}
    \* (a directory opens, but nothing can be read from it)
    /\ (e.from = "dir" => ~e.reads)
    /\ ("full" \in {e.from, e.dest} => m.tosize = 0)
    /\ (e.dest = "limit" => m.tosize <= e.limit)
    /\ m.st = "done"
    /\ (m.comp = 0 => m.surplus + m.rawsurplus = 0)

Use(m, e) ==
    \/ TooShort(m.mem, e) /\ e.leak = 0 /\ e.same
    \/ e.kind = "inp" /\ m.st \in {"done", "run"} /\ ~SafeReads(m) /\ e.leak = 0 /\ e.same
    \/ /\ e.alive
       /\ e.leak = 0
       /\ e.same                          \* from-file and patch file as before
       /\ (Must(m, e) => e.ok)
       /\ (e.ok =>
             /\ May(m, e)
             /\ (e.ret >= 0 => e.ret = m.tosize)
             /\ IF e.kind = "seq" THEN e.dest = "full" \/ e.after = m.out
                ELSE e.from = "full" \/ SubSeq(e.after, 1, m.tosize) = m.out)
       /\ (~e.ok => e.ret < 0)
       \* nothing of a memory file is lost
       /\ (e.kind = "inp" /\ e.from = "file") =>
             /\ Len(e.after) >= Len(e.base)
             /\ (m.hdr = "body" /\ Len(e.base) > m.mem) => SubSeq(e.after, m.mem + 1, Len(e.base)) = SubSeq(e.base, m.mem + 1, Len(e.base))

Judge(e) == IF e.kind = "usage" THEN e.alive /\ ~e.ok /\ e.same
            ELSE Use(What(e), e)
Init == s \in 1..Len(T) /\ i = 0
Check == i = 0 /\ Judge(T[s]) /\ i' = 1 /\ UNCHANGED s
Done == i = 1 /\ UNCHANGED vars
Next == Check \/ Done
Spec == Init /\ [][Next]_vars
Position == <<s, i>>
=============================================================================
