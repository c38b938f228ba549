----------------------------- MODULE PatchCodec -----------------------------
(***************************************************************************)
(* The detools patch language as a set of byte-driven automata.            *)
(*                                                                         *)
(*   size numbers   VByte (signed, 6+7+7+..), UByte (unsigned, 7+7+..)     *)
(*   decompressors  none, CRLE, heatshrink (LZMA is uninterpreted: the     *)
(*                  environment supplies the plain bytes of the stream)    *)
(*   patch header   sequential and in-place                                *)
(*   patch body     repeated (data-format size, diff, extra, adjustment)   *)
(*                                                                         *)
(* Feed(d, env, lo, hi) pushes the patch bytes lo..hi through the whole    *)
(* pipeline.  d.out is at any time exactly the to-data that is determined  *)
(* by the bytes fed so far.  All the other modules (apply objects, trace   *)
(* specifications, model checking configurations) use these operators as   *)
(* the one definition of what a patch means.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
Fill(n, v) == [i \in 1..n |-> v]

-----------------------------------------------------------------------------
(* Size numbers.  n counts the bytes seen; at most 4 bytes fit in the C     *)
(* library's range (6+7+7+7 = 27 value bits, 7*4 = 28 for the unsigned      *)
(* form); one more is an overflow.                                          *)

(* The Python package takes numbers of any length (big): the model keeps     *)
(* them exact below 2^27 and as Huge above, which is all that matters for    *)
(* sizes; an adjustment that large leaves the outcome open.                  *)

VInit == [n |-> 0, acc |-> 0, mul |-> 1, neg |-> FALSE, more |-> TRUE, ovf |-> FALSE, big |-> FALSE]
VBig == [VInit EXCEPT !.big = TRUE]
Huge == 1073741824

\* One more group of seven value bits.
VGroup(v, b) ==
    LET w == [v EXCEPT !.n = @ + 1, !.more = b >= 128]
    IN IF ~v.big
       THEN IF v.n >= 4 THEN [v EXCEPT !.ovf = TRUE, !.more = FALSE]
            ELSE [w EXCEPT !.acc = @ + (b % 128) * v.mul,
                           !.mul = IF v.n = 3 THEN @ ELSE @ * 128]
       ELSE IF v.mul > 4194304 THEN [w EXCEPT !.acc = IF b % 128 = 0 THEN @ ELSE Huge]
            ELSE [w EXCEPT !.acc = @ + (b % 128) * v.mul, !.mul = @ * 128]

VByte(v, b) ==
    IF v.n = 0
    THEN [v EXCEPT !.n = 1, !.acc = b % 64, !.mul = 64, !.neg = ((b \div 64) % 2 = 1),
                   !.more = b >= 128]
    ELSE VGroup(v, b)

UByte(v, b) == VGroup(v, b)

VVal(v) == IF v.neg THEN -v.acc ELSE v.acc

RECURSIVE PackTail(_)
PackTail(x) == IF x < 128 THEN <<x>> ELSE <<128 + (x % 128)>> \o PackTail(x \div 128)

\* The canonical (shortest) encodings.
PackSize(x) ==
    LET m == IF x < 0 THEN -x ELSE x
        s == IF x < 0 THEN 64 ELSE 0
    IN IF m < 64 THEN <<s + m>> ELSE <<128 + s + (m % 64)>> \o PackTail(m \div 64)
PackUSize(x) == PackTail(x)

-----------------------------------------------------------------------------
(* Decoder state.                                                           *)

\* The compressions of the C library, all built in; a build may leave out any
\* of them (lib).
AllBuilt == {0, 1, 2, 4}
BadComp(py, lib, t) == IF py THEN t > 6 ELSE t \notin lib
Opaque(t) == t \in {1, 3, 5, 6}

DInit(kind) ==
    [kind   |-> kind,        \* "seq" or "inp"
     st     |-> "run",       \* "run", "done" or an error class
     hdr    |-> "type",      \* header field being read, "body" afterwards
     py     |-> FALSE,       \* the Python package's reading of the format
     vi     |-> VInit,       \* a size number before its first byte
     v      |-> VInit,       \* size number being read
     comp   |-> 0,
     lib    |-> AllBuilt,    \* the compressions the library was built with
     hlen   |-> 0,           \* header length in bytes (once known)
     mem    |-> 0, seg |-> 0, shift |-> 0, fromsize |-> 0, tosize |-> 0,
     \* decompressor
     ck     |-> "idle",      \* CRLE phase / heatshrink phase
     cl     |-> 0,           \* CRLE bytes left / heatshrink bits missing
     ca     |-> 0,           \* heatshrink bit accumulator
     ci     |-> 0,           \* heatshrink back-reference distance
     cv     |-> VInit,       \* CRLE length being read
     ch     |-> <<>>,        \* heatshrink window (most recent last)
     np     |-> 0,           \* decompressed bytes so far
     surplus|-> 0,           \* decompressed bytes after the end of the body
     rawsurplus |-> 0,       \* compressed bytes after the end of the body
     \* body
     ph     |-> "df",        \* df, (dn, db,) ds, dd, es, ed, ad
     left   |-> 0,           \* bytes left in the current record
     fpos   |-> 0,           \* read position in the from-image / memory
     sidx   |-> 0,           \* in-place: segments started
     send   |-> 0,           \* in-place: end of the current segment
     reads  |-> <<>>,        \* in-place: <<segment, lo, hi>> from-ranges used
     free   |-> FALSE,       \* only the contents matter, there is no from-image
     log    |-> <<>>,        \* py: <<phase, value, bytes, segment>> of every size
     dfok   |-> FALSE,       \* data-format patches are read (and collected)
     dfp    |-> <<>>,        \* the data-format patch
     out    |-> <<>>]

\* The Python package: every compression (bz2, zstd and lz4 are as opaque as
\* LZMA), long size numbers, signed sizes in headers, the rest of a CRLE or
\* heatshrink stream is looked at.
DInitPy(kind) == [DInit(kind) EXCEPT !.py = TRUE, !.vi = VBig, !.v = VBig, !.cv = VBig]

Err(d, e) == [d EXCEPT !.st = e]

-----------------------------------------------------------------------------
(* Patch body.  src is what diff data is added to: the from-image for a      *)
(* sequential patch, the memory after the shift for an in-place patch.       *)

\* Ranges read, adjacent ones joined.
AddRead(rs, sidx, lo, hi) ==
    IF rs # <<>> /\ rs[Len(rs)][1] = sidx /\ rs[Len(rs)][3] = lo
    THEN [rs EXCEPT ![Len(rs)] = <<sidx, @[2], hi>>]
    ELSE Append(rs, <<sidx, lo, hi>>)

\* A completed size number in phase d.ph.
BodySize(d0, x) ==
    LET d == IF d0.py THEN [d0 EXCEPT !.log = Append(@, <<d0.ph, x, d0.v.n + 1, d0.sidx>>)] ELSE d0 IN
    CASE d.ph = "df" ->
            IF x > 0 /\ d.dfok THEN [d EXCEPT !.ph = "dn", !.left = x, !.v = d.vi, !.send = d.tosize]
            ELSE IF x > 0 THEN Err(d, "notimpl")
            ELSE IF d.kind = "seq" THEN [d EXCEPT !.ph = "ds", !.v = d.vi, !.send = d.tosize]
            ELSE [d EXCEPT !.ph = "ds", !.v = d.vi,
                           !.fpos = Max2(d.seg * (d.sidx + 1), d.shift),
                           !.send = Min2(d.seg * (d.sidx + 1), d.tosize),
                           !.sidx = d.sidx + 1]
      [] d.ph = "dn" -> [d EXCEPT !.ph = "db", !.v = d.vi]
      [] d.ph \in {"ds", "es"} ->
            IF x < 0 \/ Len(d.out) + x > d.send THEN Err(d, "corrupt")
            ELSE IF x > 0
            THEN [d EXCEPT !.ph = IF d.ph = "ds" THEN "dd" ELSE "ed", !.left = x, !.v = d.vi]
            ELSE [d EXCEPT !.ph = IF d.ph = "ds" THEN "es" ELSE "ad", !.v = d.vi]
      [] OTHER -> \* "ad"
            IF d.py /\ x \in {Huge, -Huge} THEN Err(d, "open")
            ELSE IF d.kind = "seq"
            THEN IF d.fpos + x < 0 /\ ~d.free THEN Err(d, "io")
                 ELSE IF Len(d.out) = d.tosize
                 THEN [d EXCEPT !.st = "done", !.fpos = d.fpos + x, !.v = d.vi]
                 ELSE [d EXCEPT !.ph = "ds", !.fpos = d.fpos + x, !.v = d.vi]
            ELSE IF Len(d.out) = d.tosize THEN [d EXCEPT !.st = "done", !.v = d.vi]
                 ELSE IF Len(d.out) = d.send THEN [d EXCEPT !.ph = "df", !.v = d.vi]
                 ELSE [d EXCEPT !.ph = "ds", !.fpos = d.fpos + x, !.v = d.vi]

\* Decompressed bytes s[i..] enter the body.
RECURSIVE Body(_, _, _, _)
Body(d, src, s, i) ==
    IF i > Len(s) THEN d
    ELSE IF d.st = "done" THEN [d EXCEPT !.surplus = @ + (Len(s) - i + 1)]
    ELSE IF d.st # "run" THEN d
    ELSE IF d.ph = "dd" THEN
        LET lim == IF d.kind = "seq" THEN Len(src) ELSE Min2(Len(src), d.mem)
            avail == IF d.fpos < 0 THEN 0 ELSE Max2(0, lim - d.fpos)
            want == Min2(d.left, Len(s) - i + 1)
            k == IF d.free THEN want ELSE Min2(want, avail)
            piece == [j \in 1..k |-> IF d.free THEN s[i + j - 1]
                                     ELSE (s[i + j - 1] + src[d.fpos + j]) % 256]
            d2 == [d EXCEPT !.out = @ \o piece, !.left = @ - k, !.fpos = @ + k,
                            !.reads = IF d.kind = "inp" /\ k > 0
                                      THEN AddRead(@, d.sidx, d.fpos, d.fpos + k) ELSE @]
        IN IF k < want THEN Err(d2, "io")
           ELSE Body(IF d2.left = 0 THEN [d2 EXCEPT !.ph = "es"] ELSE d2, src, s, i + k)
    ELSE IF d.ph = "db" THEN
        LET k == Min2(d.left, Len(s) - i + 1)
            d2 == [d EXCEPT !.dfp = @ \o SubSeq(s, i, i + k - 1), !.left = @ - k]
        IN Body(IF d2.left = 0 THEN [d2 EXCEPT !.ph = "ds"] ELSE d2, src, s, i + k)
    ELSE IF d.ph = "ed" THEN
        LET k == Min2(d.left, Len(s) - i + 1)
            d2 == [d EXCEPT !.out = @ \o SubSeq(s, i, i + k - 1), !.left = @ - k]
        IN Body(IF d2.left = 0 THEN [d2 EXCEPT !.ph = "ad"] ELSE d2, src, s, i + k)
    ELSE
        LET v2 == VByte(d.v, s[i])
        IN IF v2.ovf THEN Err(d, "overflow")
           ELSE IF v2.more THEN Body([d EXCEPT !.v = v2], src, s, i + 1)
           ELSE Body(BodySize(d, VVal(v2)), src, s, i + 1)

\* (In pieces, so that the recursion stays shallow.)
Push(d, src, s) ==
    LET d1 == [d EXCEPT !.np = @ + Len(s)]
    IN IF Len(s) <= 200 THEN Body(d1, src, s, 1)
       ELSE FoldLeft(LAMBDA x, j: Body(x, src, SubSeq(s, 200 * (j - 1) + 1,
                                                       Min2(200 * j, Len(s))), 1),
                     d1, [j \in 1..CeilDiv(Len(s), 200) |-> j])

-----------------------------------------------------------------------------
(* CRLE: segments  0 len bytes..  |  1 count byte                            *)
MaxRun == 20000
RECURSIVE Crle(_, _, _, _, _)
Crle(d, src, p, i, hi) ==
    IF i > hi THEN d
    ELSE IF d.st = "done" /\ ~d.py THEN [d EXCEPT !.rawsurplus = @ + (hi - i + 1)]
    ELSE IF d.st \notin {"run", "done"} THEN d
    ELSE CASE d.ck = "idle" ->
                IF p[i] = 0 THEN Crle([d EXCEPT !.ck = "ssz", !.cv = d.vi], src, p, i + 1, hi)
                ELSE IF p[i] = 1 THEN Crle([d EXCEPT !.ck = "rsz", !.cv = d.vi], src, p, i + 1, hi)
                ELSE Err(d, "crlekind")
           [] d.ck \in {"ssz", "rsz"} ->
                LET v2 == UByte(d.cv, p[i])
                IN IF v2.ovf THEN Err(d, "overflow")
                   ELSE IF v2.more THEN Crle([d EXCEPT !.cv = v2], src, p, i + 1, hi)
                   ELSE Crle([d EXCEPT !.cl = v2.acc,
                                       !.ck = IF d.ck = "rsz" THEN "rdata"
                                              ELSE IF v2.acc = 0 THEN "idle" ELSE "sdata"],
                             src, p, i + 1, hi)
           [] d.ck = "sdata" ->
                LET k == Min2(d.cl, hi - i + 1)
                IN Crle(Push([d EXCEPT !.cl = @ - k, !.ck = IF k = d.cl THEN "idle" ELSE "sdata"],
                             src, SubSeq(p, i, i + k - 1)),
                        src, p, i + k, hi)
           [] OTHER -> \* "rdata"
                \* An absurd count is not expanded in full; if the body survives
                \* even MaxRun of them the outcome is left open ("toobig").
                LET n == Min2(d.cl, MaxRun)
                    d2 == Push([d EXCEPT !.ck = "idle"], src, Fill(n, p[i]))
                IN IF n < d.cl /\ d2.st = "run" THEN Err(d2, "toobig")
                   ELSE Crle(d2, src, p, i + 1, hi)

-----------------------------------------------------------------------------
(* Heatshrink.  ck: "hhdr" (parameter byte), "tag", "lit", "idx", "cnt".      *)
(* hw, hl = window and lookahead bits the decoder accepts; 0 = any.            *)
HsBack(ch, dist, n) ==
    \* n bytes at distance dist; bytes before the start of data read as zero,
    \* a reference that overlaps its own output repeats it
    LET first == Len(ch) - dist + 1
    IN ch \o [j \in 1..n |-> LET p == first + ((j - 1) % dist)
                            IN IF p >= 1 THEN ch[p] ELSE 0]

HsTrim(h, w) == IF Len(h) > 2 * w THEN SubSeq(h, Len(h) - w + 1, Len(h)) ELSE h

\* One bit.  x = [d, o] with o the bytes output so far for this input byte.
HsBit(x, bit, w, l) ==
    LET d == x.d IN
    IF d.ck = "tag" THEN
        IF bit = 1 THEN [x EXCEPT !.d.ck = "lit", !.d.cl = 8, !.d.ca = 0]
        ELSE [x EXCEPT !.d.ck = "idx", !.d.cl = w, !.d.ca = 0]
    ELSE
      LET acc == d.ca * 2 + bit
          n == d.cl - 1
      IN IF n > 0 THEN [x EXCEPT !.d.ca = acc, !.d.cl = n]
         ELSE CASE d.ck = "lit" ->
                     [x EXCEPT !.d.ck = "tag", !.d.ch = HsTrim(Append(@, acc), 2^w),
                               !.o = Append(@, acc)]
                [] d.ck = "idx" ->
                     [x EXCEPT !.d.ck = "cnt", !.d.cl = l, !.d.ca = 0, !.d.ci = acc + 1]
                [] OTHER ->
                     LET h2 == HsBack(d.ch, d.ci, acc + 1)
                     IN [x EXCEPT !.d.ck = "tag", !.d.ch = HsTrim(h2, 2^w),
                                  !.o = @ \o SubSeq(h2, Len(d.ch) + 1, Len(h2))]

Bits(b) == <<b \div 128, (b \div 64) % 2, (b \div 32) % 2, (b \div 16) % 2,
             (b \div 8) % 2, (b \div 4) % 2, (b \div 2) % 2, b % 2>>

HsBits(x, b, w, l) == FoldLeft(LAMBDA y, bit: HsBit(y, bit, w, l), x, Bits(b))
HsByte(d, b, w, l) == HsBits([d |-> d, o |-> <<>>], b, w, l)

HsFeed(d, src, b, hw, hl) ==
    IF d.st = "done" /\ ~d.py THEN [d EXCEPT !.rawsurplus = @ + 1]
    ELSE IF d.st \notin {"run", "done"} THEN d
    ELSE IF d.ck = "hhdr" THEN
        LET w == (b \div 16) + 4
            l == (b % 16) + 3
        IN IF (hw # 0 /\ (w # hw \/ l # hl)) \/ (hw = 0 /\ (w > 15 \/ l >= w))
           THEN Err(d, "hshdr")
           ELSE [d EXCEPT !.ck = "tag", !.cl = 0, !.cv = [VInit EXCEPT !.acc = w, !.mul = l]]
    ELSE LET x == HsByte(d, b, d.cv.acc, d.cv.mul)
         IN Push(x.d, src, x.o)

-----------------------------------------------------------------------------
(* Header.                                                                   *)
HdrNext(h) == CASE h = "mem" -> "seg" [] h = "seg" -> "shift"
                [] h = "shift" -> "from" [] h = "from" -> "to"

GeomOk(d) ==
    /\ d.seg > 0 /\ d.mem >= 0 /\ d.shift >= 0 /\ d.fromsize >= 0 /\ d.tosize >= 0
    /\ d.mem % d.seg = 0 /\ d.shift % d.seg = 0
    /\ d.shift <= d.mem /\ d.tosize <= d.mem

HdrByte(d, b) ==
    IF d.hdr = "type" THEN
        LET t == (b \div 16) % 8
        IN IF t # (IF d.kind = "seq" THEN 0 ELSE 1) THEN Err(d, "badtype")
           ELSE [d EXCEPT !.comp = b % 16, !.hlen = 1, !.v = d.vi,
                          !.hdr = IF d.kind = "seq" THEN "to" ELSE "mem"]
    ELSE
        LET v2 == VByte(d.v, b)
            x == IF d.py THEN VVal(v2)
                 ELSE v2.acc          \* the sign bit is ignored in headers
            d1 == [d EXCEPT !.hlen = @ + 1]
        IN IF v2.ovf THEN Err(d, "overflow")
           ELSE IF v2.more THEN [d1 EXCEPT !.v = v2]
           ELSE IF d.hdr # "to"
           THEN LET d2 == [d1 EXCEPT !.hdr = HdrNext(d.hdr), !.v = d.vi]
                IN CASE d.hdr = "mem" -> [d2 EXCEPT !.mem = x]
                     [] d.hdr = "seg" -> [d2 EXCEPT !.seg = x]
                     [] d.hdr = "shift" -> [d2 EXCEPT !.shift = x]
                     [] OTHER -> [d2 EXCEPT !.fromsize = x]
           ELSE LET d2 == [d1 EXCEPT !.hdr = "body", !.tosize = x, !.v = d.vi,
                                     !.ck = IF d.comp = 4 THEN "hhdr" ELSE "idle"]
                IN IF BadComp(d.py, d.lib, d.comp) THEN Err(d2, "badcomp")
                   ELSE IF d.kind = "inp" /\ ~GeomOk(d2) THEN Err(d2, IF d.py THEN "geom" ELSE "corrupt")
                   ELSE IF x < 0 THEN Err(d2, "corrupt")
                   ELSE IF x = 0 THEN [d2 EXCEPT !.st = "done"]
                   ELSE d2

-----------------------------------------------------------------------------
(* In-place: memory after the shift.                                         *)
NShift(d) == IF d.shift = 0 THEN 0
             ELSE CeilDiv(Min2(d.fromsize, d.mem - d.shift), d.seg)
Shifted(d, m0) ==
    LET n == IF d.free THEN 0
             ELSE IF d.py THEN Max2(0, Min2(Min2(d.fromsize, d.mem - d.shift), Len(m0) - d.shift))
             ELSE Max2(0, Min2(NShift(d) * d.seg, Len(m0) - d.shift))
    IN IF n = 0 THEN m0
       ELSE SubSeq(m0, 1, d.shift) \o SubSeq(m0, 1, n) \o SubSeq(m0, d.shift + n + 1, Len(m0))

(* Patch bytes p[lo..hi] enter the pipeline.                                  *)
(*   base = from-image ("seq") or initial memory ("inp")                      *)
(*   lz   = plain bytes of the LZMA stream (used when comp = 1): pushed at     *)
(*          once when the body starts, because when liblzma releases which     *)
(*          byte is not ours to say                                            *)
(*   hw,hl = heatshrink parameters the decoder is built for (0,0 = any)        *)
RECURSIVE Feed(_, _, _, _, _, _, _, _)
Feed(d, base, p, lo, hi, lz, hw, hl) ==
    IF lo > hi THEN d
    ELSE IF d.st = "done" /\ (~d.py \/ d.comp \notin {2, 4} \/ d.tosize = 0)
    THEN [d EXCEPT !.rawsurplus = @ + (hi - lo + 1)]
    ELSE IF d.st \notin {"run", "done"} THEN d
    ELSE IF d.hdr # "body" THEN
        LET d2 == HdrByte(d, p[lo])
            src == IF d.kind = "seq" THEN base ELSE Shifted(d2, base)
            d3 == IF d2.hdr = "body" /\ d2.st = "run" /\ Opaque(d2.comp) THEN Push(d2, src, lz) ELSE d2
        IN IF Opaque(d3.comp) /\ d3.hdr = "body" THEN d3
           ELSE Feed(d3, base, p, lo + 1, hi, lz, hw, hl)
    ELSE
        LET src == IF d.kind = "seq" THEN base ELSE Shifted(d, base)
        IN CASE d.comp = 0 -> Push(d, src, SubSeq(p, lo, hi))
             [] Opaque(d.comp) -> d
             \* (in pieces, so that the recursion stays shallow)
             [] d.comp = 2 -> FoldLeft(LAMBDA x, j: Crle(x, src, p, lo + 100 * (j - 1), Min2(lo + 100 * j - 1, hi)), d,
                                       [j \in 1..CeilDiv(hi - lo + 1, 100) |-> j])
             [] OTHER -> FoldLeft(LAMBDA x, j: HsFeed(x, src, p[j], hw, hl), d,
                                  [j \in 1..(hi - lo + 1) |-> lo + j - 1])

(* The meaning of a whole patch.                                             *)
MeaningFrom(d, base, p, lz, hw, hl) == Feed(d, base, p, 1, Len(p), lz, hw, hl)
Meaning(kind, base, p, lz, hw, hl) == MeaningFrom(DInit(kind), base, p, lz, hw, hl)

(* A patch is well formed if it ends exactly where its last record ends.      *)
(* (Heatshrink may carry padding bits; they hold no complete symbol.)         *)
WellFormed(d) == d.st = "done" /\ d.surplus = 0 /\ d.rawsurplus = 0

(* An in-place patch is safe if no record reads memory that has been erased    *)
(* for the to-image already (the segment being written included).              *)
SafeReads(d) == \A i \in 1..Len(d.reads) : d.reads[i][2] >= d.seg * d.reads[i][1]
=============================================================================
