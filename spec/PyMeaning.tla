------------------------------ MODULE PyMeaning ------------------------------
(***************************************************************************)
(* What the Python package may answer, given what a patch says.  e is one     *)
(* call and what came of it (see TracePy); m is the meaning of its patch.     *)
(* lz is the plain data of an LZMA, bz2, zstd or lz4 stream (as much of it   *)
(* as can be had) and lzend says whether the stream is "whole", "broken"     *)
(* (damaged or cut) or "open" (followed by something else).                  *)
(***************************************************************************)
EXTENDS PatchCodec

MeaningPy(e, free) ==
    Feed([DInitPy(e.kind) EXCEPT !.free = free], e.base, e.patch, 1, Len(e.patch), e.lz, 0, 0)

-----------------------------------------------------------------------------
\* The stream after the last record: nothing that yields a byte or is cut.
TailOk(m) == CASE m.comp = 2 -> m.ck = "idle"
               [] OTHER -> TRUE

\* The patch says exactly m.out.
Good(m, e) == /\ m.st = "done" /\ m.surplus = 0 /\ m.tosize > 0
              /\ (m.comp = 0 => m.rawsurplus = 0)
              /\ (m.comp = 2 => m.ck = "idle")
              /\ (Opaque(m.comp) => e.lzend = "whole")

Open(m, e) == \/ m.st \in {"open", "toobig"}
              \/ (e.kind = "seq" /\ m.st = "notimpl")
              \/ (m.st = "done" /\ m.tosize = 0)
              \/ (m.kind = "inp" /\ ~SafeReads(m))

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* A finished or refused apply.                                              *)
Apply(m, e) ==
    \/ e.res = "dead" /\ m.st = "toobig"
    \/ /\ e.res \in {"ok", "raise"}
       /\ e.same
       /\ \/ Open(m, e)
          \/ /\ e.kind = "seq"
             /\ (Good(m, e) => e.res = "ok")
             /\ (e.res = "ok" =>
                    /\ m.st = "done" /\ m.surplus = 0
                    /\ (Opaque(m.comp) => e.lzend \in {"whole", "open"})
                    /\ (m.comp = 0 => m.rawsurplus = 0)
                    /\ (m.comp = 2 => m.ck = "idle")
                    /\ e.ret = m.tosize /\ e.out = m.out)
             \* what was written before an error is a beginning of the image
             \* (a damaged bz2 block may yield bytes before it is found out)
             /\ (e.res = "raise" /\ ~(Opaque(m.comp) /\ e.lzend = "broken")) => Prefix(e.out, m.out)
          \/ /\ e.kind = "inp"
             /\ LET fits == Len(e.base) >= m.mem
                IN /\ ((Good(m, e) /\ fits) => e.res = "ok")
                   /\ (e.res = "ok" =>
                          /\ fits
                          /\ m.st = "done" /\ m.surplus = 0
                          /\ (Opaque(m.comp) => e.lzend \in {"whole", "open"})
                          /\ (m.comp = 0 => m.rawsurplus = 0)
                          /\ (m.comp = 2 => m.ck = "idle")
                          /\ e.ret = m.tosize
                          /\ SubSeq(e.out, 1, m.tosize) = m.out)
                   /\ Len(e.out) = Len(e.base)
                   /\ ((m.hdr = "body" /\ ~fits) => e.out = e.base)
                   \* nothing outside the memory of the patch is touched
                   /\ (m.hdr = "body" /\ fits) =>
                        \A k \in (Max2(0, m.mem) + 1)..Len(e.base) : e.out[k] = e.base[k]

-----------------------------------------------------------------------------
(* patch_info.                                                              *)
Sizes(m, ph, seg) == LET l == SelectSeq(m.log, LAMBDA r: r[1] = ph /\ (seg = 0 \/ r[4] = seg))
                     IN [k \in 1..Len(l) |-> l[k][2]]
\* (the size of the segment's data-format patch is not counted)
SizeBytes(m, seg) ==
    FoldLeft(LAMBDA a, r: a + (IF r[1] # "df" /\ (seg = 0 \/ r[4] = seg) THEN r[3] ELSE 0), 0, m.log)

\* adjustments are logged in their segment because d.sidx changes with "df" only
InfoSeq(m, e) ==
    LET f == e.info IN
    /\ f.patchsize = Len(e.patch)
    /\ f.comp = m.comp
    /\ f.tosize = m.tosize
    /\ f.dfsize = IF m.tosize = 0 THEN 0 ELSE Sizes(m, "df", 0)[1]
    /\ f.diffs = Sizes(m, "ds", 0) /\ f.extras = Sizes(m, "es", 0) /\ f.adjs = Sizes(m, "ad", 0)
    /\ f.nbytes = SizeBytes(m, 0)
    /\ ((m.comp = 4 /\ m.tosize > 0) => f.hw = m.cv.acc /\ f.hl = m.cv.mul)

InfoInp(m, e) ==
    LET f == e.info IN
    /\ f.patchsize = Len(e.patch)
    /\ f.comp = m.comp
    /\ <<f.mem, f.seg, f.shift, f.from, f.tosize>> = <<m.mem, m.seg, m.shift, m.fromsize, m.tosize>>
    /\ Len(f.segs) = m.sidx
    /\ \A k \in 1..Len(f.segs) :
         LET g == f.segs[k] IN
         /\ g.dfsize = Sizes(m, "df", 0)[k]
         /\ g.tosize = Min2(m.seg, m.tosize - m.seg * (k - 1))
         /\ g.diffs = Sizes(m, "ds", k) /\ g.extras = Sizes(m, "es", k) /\ g.adjs = Sizes(m, "ad", k)
         /\ g.nbytes = SizeBytes(m, k)
    /\ ((m.comp = 4 /\ m.tosize > 0) => f.hw = m.cv.acc /\ f.hl = m.cv.mul)

Info(m, e) ==
    \/ e.res = "dead" /\ m.st = "toobig"
    \/ /\ e.res \in {"ok", "raise"}
       /\ \/ m.st \in {"open", "toobig", "notimpl", "geom"}
          \/ (m.st = "done" /\ m.tosize = 0 /\ m.rawsurplus > 0)
          \/ /\ ((Good(m, e) \/ (m.st = "done" /\ m.tosize = 0)) => e.res = "ok")
             /\ (e.res = "ok" =>
                    /\ m.st = "done" /\ m.surplus = 0
                    /\ (Opaque(m.comp) /\ m.tosize > 0 => e.lzend \in {"whole", "open"})
                    /\ (m.comp = 0 => m.rawsurplus = 0)
                    /\ e.info.type = e.kind
                    /\ IF e.kind = "seq" THEN InfoSeq(m, e) ELSE InfoInp(m, e))

-----------------------------------------------------------------------------
(* Created patches.                                                         *)
Create(m, e) ==
    /\ e.res = "ok"
    /\ e.same
    /\ m.st = "done" /\ m.comp = e.comp /\ m.tosize = Len(e.to) /\ m.out = e.to
    /\ m.surplus = 0 /\ m.rawsurplus = 0
    /\ TailOk(m)
    /\ (m.tosize > 0 /\ Opaque(m.comp)) => e.lzend = "whole"
    /\ (m.tosize > 0 /\ m.comp = 4) => (m.cv.acc = e.hw /\ m.cv.mul = e.hl)
    /\ \A k \in 1..Len(m.log) : m.log[k][1] = "df" => m.log[k][2] = 0

PossibleGeometry(e) ==
    /\ e.seg > 0 /\ e.mem % e.seg = 0 /\ e.minshift % e.seg = 0
    /\ Len(e.to) <= e.mem /\ e.minshift >= 0 /\ e.minshift <= e.mem

CreateInp(m, e) ==
    IF ~PossibleGeometry(e) THEN e.res = "raise"
    ELSE /\ \/ e.res = "ok"
            \/ e.res = "raise" /\ e.fromlen > e.mem
         /\ e.same
         /\ e.res = "ok" =>
              /\ m.st = "done" /\ m.comp = e.comp
              /\ <<m.mem, m.seg, m.fromsize, m.tosize>> = <<e.mem, e.seg, e.fromlen, Len(e.to)>>
              /\ m.shift % m.seg = 0 /\ m.shift >= e.minshift /\ m.shift <= m.mem
              /\ m.out = e.to
              /\ m.surplus = 0 /\ m.rawsurplus = 0
              /\ TailOk(m)
              /\ SafeReads(m)
              \* only from-data that is still there is used
              /\ \A k \in 1..Len(m.reads) :
                    /\ m.reads[k][2] >= m.shift
                    /\ m.reads[k][3] <= m.shift + Min2(m.fromsize, m.mem - m.shift)
              /\ (m.tosize > 0 /\ Opaque(m.comp)) => e.lzend = "whole"
              /\ (m.tosize > 0 /\ m.comp = 4) => (m.cv.acc = e.hw /\ m.cv.mul = e.hl)

(* Both implementations apply what was created.                             *)
Interop(m, e) ==
    /\ e.rescreate = "ok"
    /\ m.st = "done" /\ m.out = e.to
    /\ e.pyres = "ok" /\ e.pyret = Len(e.to) /\ e.pyout = e.to
    /\ e.cret = Len(e.to) /\ e.cout = e.to
=============================================================================
