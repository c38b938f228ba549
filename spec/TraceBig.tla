----------------------------- MODULE TraceBig -----------------------------
(***************************************************************************)
(* The patch language at scale.  Images and patches of megabytes are given  *)
(* as sequences of runs <<byte, count>> (neighbours differ), so the meaning *)
(* of a patch is followed piece by piece: a piece is a stretch over which   *)
(* every stream involved is constant.  What is followed is one whole patch: *)
(*                                                                          *)
(*   "hdr"   the header, byte by byte                                       *)
(*   "crle"  the CRLE stream, against the plain body of the session         *)
(*   "hs"    the heatshrink stream, against the plain body of the session   *)
(*   "body"  the plain body, against the from-image and the final image     *)
(*   "end"   the outcome                                                    *)
(*   "bs"    (sessions of kind "bs") the records of a BSDIFF40 patch: patch, *)
(*           plain and extra are its control, diff and extra block, head the *)
(*           32 bytes before them                                           *)
(*                                                                          *)
(* (The plain body of lzma, bz2, zstd and lz4 streams comes with the        *)
(* session.)  A session that does not describe its final image, or whose    *)
(* reported result is not the one of a complete apply, deadlocks.           *)
(***************************************************************************)
EXTENDS PatchCodec, Json, IOUtils
B == INSTANCE Bsdiff40

Data == JsonDeserialize(IOEnv.TRACE_DATA)
Sessions == Data.sessions

VARIABLES s, i, c
vars == <<s, i, c>>
Position == <<s, i>>

S == Sessions[s]

-----------------------------------------------------------------------------
(* Streams of runs, and cursors <<run, offset in it>> in them.              *)
Start == <<1, 0>>
More(r, u) == u[1] <= Len(r)
Val(r, u) == r[u[1]][1]
Rest(r, u) == r[u[1]][2] - u[2]
Adv(r, u, n) == IF n = Rest(r, u) THEN <<u[1] + 1, 0>> ELSE <<u[1], u[2] + n>>

\* The run that holds offset x.  st: the offset of the start of every run.
RECURSIVE Search(_, _, _, _)
Search(st, x, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF st[m] <= x THEN Search(st, x, m, hi) ELSE Search(st, x, lo, m - 1)
At(r, st, x) ==
    IF x < 0 \/ r = <<>> THEN <<Len(r) + 1, 0>>
    ELSE LET j == Search(st, x, 1, Len(r))
         IN IF x >= st[j] + r[j][2] THEN <<Len(r) + 1, 0>> ELSE <<j, x - st[j]>>

-----------------------------------------------------------------------------
Init ==
    /\ s \in 1..Len(Sessions)
    /\ i = 0
    /\ c = [st |-> "hdr", p |-> Start, l |-> Start, f |-> Start, t |-> Start,
            v |-> VInit, nums |-> <<>>, comp |-> 0,
            kp |-> "kind", left |-> 0, bit |-> 0, w |-> 0, lw |-> 0, src |-> Start, at |-> 0,
            ph |-> "df", fpos |-> 0, tpos |-> 0, sidx |-> 0, send |-> 0, k |-> 0, nb |-> 0]

Inp == S.kind = "inp"
Fields == IF Inp THEN 5 ELSE 1
ToSize == c.nums[Fields]
Mem == c.nums[1]
Seg == c.nums[2]
Shift == c.nums[3]

To(d) == c' = d /\ i' = i + 1 /\ s' = s

\* The type byte and the numbers of the header.
AfterHeader(d) ==
    CASE d.comp = 2 -> [d EXCEPT !.st = "crle"]
      [] d.comp = 4 -> [d EXCEPT !.st = "hs", !.kp = "par"]
      [] OTHER -> [d EXCEPT !.st = "body"]

TypeByte ==
    /\ c.st = "hdr" /\ i = 0 /\ S.kind # "bs"
    /\ LET b == Val(S.patch, c.p)
       IN /\ b \div 16 = IF Inp THEN 1 ELSE 0
          /\ S.comp \in {-1, b % 16}
          /\ To([c EXCEPT !.comp = b % 16, !.p = Adv(S.patch, c.p, 1)])

\* What was asked for when the patch was created (nothing for others).
Asked(nums) ==
    IF S.geo = <<>> THEN TRUE
    ELSE /\ nums[1] = S.geo[1] /\ nums[2] = S.geo[2] /\ nums[4] = S.geo[4]
         /\ nums[3] >= S.geo[3] /\ nums[3] % nums[2] = 0 /\ nums[3] <= nums[1]

Header ==
    /\ c.st = "hdr" /\ i > 0
    /\ LET v == VByte(c.v, Val(S.patch, c.p))
           d == [c EXCEPT !.p = Adv(S.patch, c.p, 1), !.v = v]
       IN IF v.more THEN To(d)
          ELSE LET e == [d EXCEPT !.v = VInit, !.nums = Append(@, VVal(v))]
               IN IF Len(e.nums) = Fields THEN Asked(e.nums) /\ To(AfterHeader(e)) ELSE To(e)

\* CRLE, against the plain body.
Plain(d) == [d EXCEPT !.st = "body", !.l = Start, !.v = VInit]
\* n further bytes of the plain body are b.
IsPlain(b, n) == More(S.plain, c.l) /\ Val(S.plain, c.l) = b /\ n <= Rest(S.plain, c.l)

StepCrle ==
    /\ c.st = "crle"
    /\ IF ~More(S.patch, c.p)
       THEN c.kp = "kind" /\ ~More(S.plain, c.l) /\ To(Plain(c))
       ELSE LET b == Val(S.patch, c.p)
                p2 == Adv(S.patch, c.p, 1)
            IN CASE c.kp = "kind" -> b \in {0, 1} /\ To([c EXCEPT !.p = p2, !.kp = "len", !.w = b, !.v = VInit])
                 [] c.kp = "len" ->
                      LET v == UByte(c.v, b)
                          n == v.acc
                          d == [c EXCEPT !.p = p2, !.v = v]
                      IN /\ ~v.ovf
                         /\ To(IF v.more THEN d
                               ELSE [d EXCEPT !.left = n,
                                              !.kp = IF c.w = 1 THEN "byte" ELSE IF n = 0 THEN "kind" ELSE "lit"])
                 [] c.kp = "byte" ->
                      To([c EXCEPT !.p = p2, !.w = b, !.kp = IF c.left = 0 THEN "kind" ELSE "rep"])
                 [] c.kp = "lit" ->
                      /\ More(S.plain, c.l)
                      /\ LET n == Min2(c.left, Min2(Rest(S.patch, c.p), Rest(S.plain, c.l)))
                         IN /\ Val(S.plain, c.l) = b
                            /\ To([c EXCEPT !.p = Adv(S.patch, c.p, n), !.l = Adv(S.plain, c.l, n),
                                            !.left = @ - n, !.kp = IF c.left = n THEN "kind" ELSE "lit"])
                 [] OTHER -> \* "rep": needs no further byte of the stream, but none is lost by looking
                      FALSE
StepRep ==
    /\ c.st = "crle" /\ c.kp = "rep"
    /\ More(S.plain, c.l)
    /\ Val(S.plain, c.l) = c.w
    /\ LET n == Min2(c.left, Rest(S.plain, c.l))
       IN To([c EXCEPT !.l = Adv(S.plain, c.l, n), !.left = @ - n, !.kp = IF c.left = n THEN "kind" ELSE "rep"])

\* Heatshrink, against the plain body.
RECURSIVE Take(_, _, _, _)
\* <<value, cursor, bits used of the byte there>>; the cursor is beyond the
\* end if there are not enough of them.
Take(p, used, n, acc) ==
    IF n = 0 \/ ~More(S.patch, p) THEN <<IF n = 0 THEN acc ELSE -1, p, used>>
    ELSE LET x == (Val(S.patch, p) \div (2 ^ (7 - used))) % 2
         IN IF used = 7 THEN Take(Adv(S.patch, p, 1), 0, n - 1, 2 * acc + x)
            ELSE Take(p, used + 1, n - 1, 2 * acc + x)

StepHs ==
    /\ c.st = "hs"
    /\ CASE c.kp = "par" ->
              LET b == Val(S.patch, c.p)
              IN /\ S.hs = <<>> \/ S.hs = <<(b \div 16) + 4, (b % 16) + 3>>
                 /\ To([c EXCEPT !.w = (b \div 16) + 4, !.lw = (b % 16) + 3, !.kp = "tag", !.p = Adv(S.patch, c.p, 1)])
         [] c.kp = "tag" ->
              IF ~More(S.plain, c.l)
              THEN \* at most seven bits of padding
                   /\ ~More(S.patch, c.p) \/ (c.p[1] = Len(S.patch) /\ Rest(S.patch, c.p) = 1 /\ c.bit > 0)
                   /\ To(Plain(c))
              ELSE LET x == Take(c.p, c.bit, 1, 0)
                   IN x[1] >= 0 /\ To([c EXCEPT !.p = x[2], !.bit = x[3], !.kp = IF x[1] = 1 THEN "lit" ELSE "ref"])
         [] c.kp = "lit" ->
              LET x == Take(c.p, c.bit, 8, 0)
              IN /\ x[1] = Val(S.plain, c.l)
                 /\ To([c EXCEPT !.p = x[2], !.bit = x[3], !.kp = "tag", !.l = Adv(S.plain, c.l, 1), !.at = @ + 1])
         [] c.kp = "ref" ->
              LET x == Take(c.p, c.bit, c.w, 0)
                  y == Take(x[2], x[3], c.lw, 0)
                  from == c.at - (x[1] + 1)
              IN /\ x[1] >= 0 /\ y[1] >= 0
                 /\ To([c EXCEPT !.p = y[2], !.bit = y[3], !.kp = IF from < 0 THEN "zero" ELSE "copy",
                                 !.k = IF from < 0 THEN -from ELSE 0,
                                 !.left = y[1] + 1, !.src = IF from < 0 THEN Start ELSE At(S.plain, S.pst, from)])
         [] c.kp = "zero" ->
              LET n == Min2(c.k, c.left)
                  m == Min2(n, Rest(S.plain, c.l))
              IN /\ More(S.plain, c.l) /\ Val(S.plain, c.l) = 0
                 /\ To([c EXCEPT !.l = Adv(S.plain, c.l, m), !.at = @ + m, !.left = @ - m, !.k = @ - m,
                                 !.kp = IF c.left = m THEN "tag" ELSE IF c.k = m THEN "copy" ELSE "zero"])
         [] OTHER -> \* "copy"
              /\ More(S.plain, c.l)
              /\ Val(S.plain, c.l) = Val(S.plain, c.src)
              /\ LET n == Min2(c.left, Min2(Rest(S.plain, c.l), Rest(S.plain, c.src)))
                 IN To([c EXCEPT !.l = Adv(S.plain, c.l, n), !.src = Adv(S.plain, c.src, n), !.at = @ + n,
                                 !.left = @ - n, !.kp = IF c.left = n THEN "tag" ELSE "copy"])

-----------------------------------------------------------------------------
(* The body.                                                                *)
BodyRuns == IF c.comp = 0 THEN S.patch ELSE S.plain
BodyCur(d) == IF c.comp = 0 THEN d.p ELSE d.l
Step(d, n) == IF c.comp = 0 THEN [d EXCEPT !.p = Adv(S.patch, d.p, n)]
              ELSE [d EXCEPT !.l = Adv(S.plain, d.l, n)]

\* Position x of what diff data is added to: the from-image, or the memory
\* after the shift (a big session reads only what was there before).
FromCur(x) == At(S.base, S.bst, IF Inp THEN x - Shift ELSE x)

\* What patch_info says about this size (an empty info says nothing).
Told(what, x) ==
    IF S.info = <<>> THEN TRUE ELSE
    LET g == S.info[IF Inp THEN c.sidx ELSE 1]
        l == IF what = "ds" THEN g.ds ELSE IF what = "es" THEN g.es ELSE g.ad
    IN c.k < Len(l) /\ l[c.k + 1] = x

ToldAll(d) ==
    IF S.info = <<>> THEN TRUE ELSE
    LET g == S.info[IF Inp THEN c.sidx ELSE 1]
    IN Len(g.es) = d.k /\ Len(g.ds) = d.k /\ Len(g.ad) = d.k /\ g.bytes = d.nb

Size ==
    /\ c.st = "body" /\ c.ph \in {"df", "ds", "es", "ad"}
    /\ More(BodyRuns, BodyCur(c))
    /\ c.ph = "df" => (c.tpos < ToSize \/ c.sidx = 0)
    /\ LET v == VByte(c.v, Val(BodyRuns, BodyCur(c)))
           d == Step([c EXCEPT !.v = v], 1)
           x == VVal(v)
           e == [d EXCEPT !.v = VInit, !.nb = @ + v.n]
       IN IF v.more THEN To(d)
          ELSE CASE c.ph = "df" ->
                      x = 0 /\ To(IF Inp
                                  THEN LET b == Max2(Seg * (c.sidx + 1), Shift)
                                       IN [e EXCEPT !.ph = "ds", !.fpos = b, !.f = FromCur(b), !.k = 0, !.nb = 0,
                                                    !.send = Min2(Seg * (c.sidx + 1), ToSize), !.sidx = @ + 1]
                                  ELSE [e EXCEPT !.ph = "ds", !.send = ToSize, !.k = 0, !.nb = 0])
                 [] c.ph \in {"ds", "es"} ->
                      /\ x >= 0 /\ c.tpos + x <= c.send
                      /\ Told(c.ph, x)
                      /\ To([e EXCEPT !.left = x,
                                      !.ph = IF c.ph = "ds" THEN (IF x > 0 THEN "dd" ELSE "es")
                                             ELSE (IF x > 0 THEN "ed" ELSE "ad")])
                 [] OTHER ->
                      /\ Told("ad", x)
                      /\ IF c.tpos < c.send
                         THEN c.fpos + x >= 0 /\ To([e EXCEPT !.ph = "ds", !.fpos = @ + x, !.k = @ + 1,
                                                            !.f = FromCur(c.fpos + x)])
                         ELSE LET g == [e EXCEPT !.k = @ + 1]
                              IN /\ ToldAll(g)
                                 /\ To(IF c.tpos = ToSize THEN [g EXCEPT !.st = "end"] ELSE [g EXCEPT !.ph = "df"])

Diff ==
    /\ c.st = "body" /\ c.ph = "dd"
    /\ More(BodyRuns, BodyCur(c)) /\ More(S.base, c.f) /\ More(S.img, c.t)
    \* old data is read where neither this segment nor an earlier one is
    /\ Inp => c.fpos >= Seg * c.sidx
    /\ Val(S.img, c.t) = (Val(BodyRuns, BodyCur(c)) + Val(S.base, c.f)) % 256
    /\ LET n == Min2(Min2(c.left, Rest(BodyRuns, BodyCur(c))), Min2(Rest(S.base, c.f), Rest(S.img, c.t)))
       IN To(Step([c EXCEPT !.f = Adv(S.base, c.f, n), !.t = Adv(S.img, c.t, n), !.fpos = @ + n, !.tpos = @ + n,
                            !.left = @ - n, !.ph = IF c.left = n THEN "es" ELSE "dd"], n))

Extra ==
    /\ c.st = "body" /\ c.ph = "ed"
    /\ More(BodyRuns, BodyCur(c)) /\ More(S.img, c.t)
    /\ Val(S.img, c.t) = Val(BodyRuns, BodyCur(c))
    /\ LET n == Min2(c.left, Min2(Rest(BodyRuns, BodyCur(c)), Rest(S.img, c.t)))
       IN To(Step([c EXCEPT !.t = Adv(S.img, c.t, n), !.tpos = @ + n,
                            !.left = @ - n, !.ph = IF c.left = n THEN "ad" ELSE "ed"], n))

\* The outcome.  log: the offsets reported after restores, as
\* <<patch bytes fed at the dump, to-bytes written then, reported, reported>>.
End ==
    /\ c.st = "end" /\ S.kind # "bs"
    /\ ~More(BodyRuns, BodyCur(c))
    /\ ~More(S.img, c.t)
    /\ c.tpos = ToSize
    /\ S.res = ToSize
    /\ \A j \in DOMAIN S.log :
          /\ S.log[j][2] = S.log[j][4]
          \* (before the header is complete the patch may be asked for from its start)
          /\ S.log[j][1] = S.log[j][3] \/ (S.log[j][3] = 0 /\ S.log[j][1] < 6 /\ S.log[j][2] = 0)
    /\ To([c EXCEPT !.st = "accepted"])

-----------------------------------------------------------------------------
(* BSDIFF40.                                                                *)
BsLen == B!OffAt(S.head, 24)

BsHead ==
    /\ S.kind = "bs" /\ c.st = "hdr"
    /\ Len(S.head) = 32
    /\ SubSeq(S.head, 1, 8) = B!Magic
    /\ B!OffAt(S.head, 8) = S.sizes[1] /\ B!OffAt(S.head, 16) = S.sizes[2]
    /\ BsLen = S.want
    /\ To([c EXCEPT !.st = "bs", !.ph = "rec"])

RECURSIVE TakeBytes(_, _, _)
TakeBytes(p, n, acc) == IF n = 0 \/ ~More(S.patch, p) THEN <<acc, p>>
                        ELSE TakeBytes(Adv(S.patch, p, 1), n - 1, Append(acc, Val(S.patch, p)))

BsRecord ==
    /\ c.st = "bs" /\ c.ph = "rec" /\ c.tpos < BsLen
    /\ LET x == TakeBytes(c.p, 24, <<>>)
           n == B!OffAt(x[1], 0) m == B!OffAt(x[1], 8) a == B!OffAt(x[1], 16)
       IN /\ Len(x[1]) = 24
          /\ n >= 0 /\ m >= 0 /\ n <= BsLen - c.tpos /\ m <= BsLen - c.tpos - n
          /\ To([c EXCEPT !.p = x[2], !.left = n, !.k = m, !.send = a, !.ph = "diff"])

BsDiff ==
    /\ c.st = "bs" /\ c.ph = "diff"
    /\ IF c.left = 0 THEN To([c EXCEPT !.ph = "extra", !.left = c.k])
       ELSE /\ More(S.plain, c.l) /\ More(S.base, c.f) /\ More(S.img, c.t)
            /\ Val(S.img, c.t) = (Val(S.plain, c.l) + Val(S.base, c.f)) % 256
            /\ LET n == Min2(Min2(c.left, Rest(S.plain, c.l)), Min2(Rest(S.base, c.f), Rest(S.img, c.t)))
               IN To([c EXCEPT !.l = Adv(S.plain, c.l, n), !.f = Adv(S.base, c.f, n), !.t = Adv(S.img, c.t, n),
                               !.fpos = @ + n, !.tpos = @ + n, !.left = @ - n])

BsExtra ==
    /\ c.st = "bs" /\ c.ph = "extra"
    /\ IF c.left = 0
       THEN LET at == c.fpos + c.send
            IN at >= 0 /\ To([c EXCEPT !.ph = "rec", !.fpos = at, !.f = At(S.base, S.bst, at)])
       ELSE /\ More(S.extra, c.src) /\ More(S.img, c.t)
            /\ Val(S.img, c.t) = Val(S.extra, c.src)
            /\ LET n == Min2(c.left, Min2(Rest(S.extra, c.src), Rest(S.img, c.t)))
               IN To([c EXCEPT !.src = Adv(S.extra, c.src, n), !.t = Adv(S.img, c.t, n), !.tpos = @ + n, !.left = @ - n])

BsEnd ==
    /\ c.st = "bs" /\ c.ph = "rec" /\ c.tpos = BsLen
    /\ ~More(S.patch, c.p) /\ ~More(S.plain, c.l) /\ ~More(S.extra, c.src) /\ ~More(S.img, c.t)
    /\ S.res = BsLen
    /\ To([c EXCEPT !.st = "accepted"])

Bs == BsHead \/ BsRecord \/ BsDiff \/ BsExtra \/ BsEnd

Done == c.st = "accepted" /\ UNCHANGED vars

Next == Bs \/ TypeByte \/ Header \/ StepCrle \/ StepRep \/ StepHs \/ Size \/ Diff \/ Extra \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
