------------------------------ MODULE InPlace ------------------------------
(***************************************************************************)
(* The in-place apply: a memory (flash) that is shifted up and overwritten  *)
(* segment by segment with the to-image, and a persistent step counter that *)
(* makes it restartable.                                                    *)
(*                                                                          *)
(* A device is [mem, er, step, q, fin]: the memory, which bytes are erased  *)
(* and not yet written, the persisted step, the step of which everything up *)
(* to it is known to be complete, and whether the image is complete.        *)
(*                                                                          *)
(* Step j (1..N): the first NS steps copy the segments up by the shift      *)
(* size, last segment first; the others write one segment of the to-image.  *)
(* Req[q] maps every address to the value it has to have when steps 1..q    *)
(* are complete for the rest to be possible, or to -1.                      *)
(***************************************************************************)
EXTENDS SeqApply

\* Step regions and sources; addresses count from 0.
Region(f, j) ==
    LET ns == NShift(f)
    IN IF j <= ns THEN LET a == f.shift + (ns - j) * f.seg IN <<a, a + f.seg>>
       ELSE LET a == (j - ns - 1) * f.seg IN <<a, Min2(a + f.seg, f.tosize)>>

NSteps(f) == IF f.tosize = 0 THEN 0 ELSE NShift(f) + CeilDiv(f.tosize, f.seg)

\* The address ranges step j reads.
Sources(f, j) ==
    LET ns == NShift(f)
    IN IF j <= ns THEN LET a == (ns - j) * f.seg IN <<<<a, a + f.seg>>>>
       ELSE LET r == SelectSeq(f.reads, LAMBDA x: x[1] = j - ns)
            IN [i \in 1..Len(r) |-> <<r[i][2], r[i][3]>>]

\* row with the addresses lo..hi-1 taken from val
Overlay(row, lo, hi, val) ==
    SubSeq(row, 1, lo) \o SubSeq(val, lo + 1, hi) \o SubSeq(row, hi + 1, Len(row))

\* The table of requirements, from the end backwards; element q + 1 is Req[q].
ReqTable(f, mem0) ==
    LET n == NSteps(f)
        sh == Shifted(f, mem0)
        free == Fill(Len(mem0), -1)
        last == f.out \o Fill(Len(mem0) - Len(f.out), -1)
        before(row, j) ==
            LET reg == Region(f, j)
                val == IF j <= NShift(f) THEN mem0 ELSE sh
            IN FoldLeft(LAMBDA r, g: Overlay(r, g[1], g[2], val),
                        Overlay(row, reg[1], reg[2], free), Sources(f, j))
    IN FoldLeft(LAMBDA t, j: <<before(t[1], n + 1 - j)>> \o t, <<last>>, [j \in 1..n |-> j])

\* What step j leaves in its region.
StepContent(f, mem0, j) ==
    LET reg == Region(f, j)
    IN SubSeq(IF j <= NShift(f) THEN Shifted(f, mem0) ELSE f.out, reg[1] + 1, reg[2])

Holds(req, mem) == \A a \in 1..Len(mem) : req[a] = -1 \/ req[a] = mem[a]

NewDevice(mem0) ==
    [mem |-> mem0, er |-> [a \in 1..Len(mem0) |-> FALSE], step |-> 0, q |-> 0, fin |-> FALSE]

\* A patch the in-place rules are meant for.
Proper(f) == WellFormed(f) /\ SafeReads(f)

-----------------------------------------------------------------------------
(* One memory or step operation.  x = [dev, bad]; bad collects the rules an   *)
(* operation breaks:                                                          *)
(*   "bounds"  an address outside the announced memory, or touched although   *)
(*             the header was refused or is not complete                      *)
(*   "flash"   a byte written that was not erased                             *)
(*   "needed"  a byte destroyed that a later step needs                       *)
(*   "steps"   an operation outside the step that follows the stored one,     *)
(*             or a step stored out of order or before it is complete         *)
(* r = [proper, f, req, mem0, steps (callbacks present), hdr (header seen)].  *)

\* Without step callbacks a step counts as complete as soon as what it has to
\* leave is there.
Progress(r, dev, a) ==
    LET n == NSteps(r.f)
        within(q) == q < n /\ LET g == Region(r.f, q + 1) IN a >= g[1] /\ a < g[2]
        comp(q) == /\ q < n
                   /\ LET g == Region(r.f, q + 1)
                      IN SubSeq(dev.mem, g[1] + 1, g[2]) = StepContent(r.f, r.mem0, q + 1)
    IN IF r.steps \/ within(dev.q) THEN dev.q
       ELSE IF comp(dev.q) THEN dev.q + 1 ELSE dev.q

Outside(r, a, n) == ~r.hdr \/ a < 0 \/ n < 0 \/ a + n > r.f.mem

\* An erase or write of n bytes at a.
Destroys(r, dev0, a, n, wr) ==
    IF ~r.proper \/ n = 0 THEN {}
    ELSE LET q == Progress(r, dev0, a)
             g == Region(r.f, q + 1)
             late == q >= NSteps(r.f)
         IN (IF late \/ dev0.fin \/ a < g[1] \/ a + n > g[2] THEN {"steps"} ELSE {})
            \cup (IF \E b \in (a + 1)..(a + n) : b <= Len(dev0.mem) /\ r.req[q + 1][b] # -1
                  THEN {"needed"} ELSE {})
            \cup (IF wr /\ \E b \in (a + 1)..(a + n) : ~dev0.er[b] THEN {"flash"} ELSE {})

Patched(s, a, w) == SubSeq(s, 1, a) \o w \o SubSeq(s, a + Len(w) + 1, Len(s))
Filled(s, a, n, v) == Patched(s, a, Fill(n, v))

Op(x, op) ==
    LET dev == x.dev
        r == x.r
    IN
    CASE op[1] = "r" ->
            IF Outside(r, op[2], op[3]) THEN [x EXCEPT !.bad = @ \cup {"bounds"}] ELSE x
      [] op[1] \in {"R", "W", "Er", "x"} ->
            \* a refused or failed operation has no effect
            IF Outside(r, op[2], op[3]) THEN [x EXCEPT !.bad = @ \cup {"bounds"}] ELSE x
      [] op[1] = "e" ->
            IF Outside(r, op[2], op[3]) THEN [x EXCEPT !.bad = @ \cup {"bounds"}]
            ELSE [x EXCEPT !.bad = @ \cup Destroys(r, dev, op[2], op[3], FALSE),
                           !.dev = [dev EXCEPT !.mem = Filled(@, op[2], op[3], 255),
                                               !.er = Filled(@, op[2], op[3], TRUE),
                                               !.q = IF r.proper THEN Progress(r, dev, op[2]) ELSE @]]
      [] op[1] = "w" ->
            IF Outside(r, op[2], Len(op[3])) THEN [x EXCEPT !.bad = @ \cup {"bounds"}]
            ELSE [x EXCEPT !.bad = @ \cup Destroys(r, dev, op[2], Len(op[3]), TRUE),
                           !.dev = [dev EXCEPT !.mem = Patched(@, op[2], op[3]),
                                               !.er = Filled(@, op[2], Len(op[3]), FALSE),
                                               !.q = IF r.proper THEN Progress(r, dev, op[2]) ELSE @]]
      [] op[1] = "c" ->
            \* power was lost in the middle: the range holds anything
            IF Outside(r, op[2], Len(op[3])) THEN [x EXCEPT !.bad = @ \cup {"bounds"}]
            ELSE [x EXCEPT !.bad = @ \cup Destroys(r, dev, op[2], Len(op[3]), FALSE),
                           !.dev = [dev EXCEPT !.mem = Patched(@, op[2], op[3]),
                                               !.er = Filled(@, op[2], Len(op[3]), FALSE)]]
      [] op[1] = "s" /\ r.proper /\ op[2] = 0 ->
            [x EXCEPT !.dev = [dev EXCEPT !.step = 0, !.q = 0, !.fin = TRUE],
                      !.bad = @ \cup (IF dev.fin \/ SubSeq(dev.mem, 1, r.f.tosize) # r.f.out
                                      THEN {"steps"} ELSE {})]
      [] op[1] = "s" /\ r.proper ->
            LET j == op[2]
                fine == /\ j = dev.step + 1 /\ j <= NSteps(r.f) /\ ~dev.fin
                        /\ Holds(r.req[j + 1], dev.mem)
                        /\ LET g == Region(r.f, j)
                           IN SubSeq(dev.mem, g[1] + 1, g[2]) = StepContent(r.f, r.mem0, j)
            IN [x EXCEPT !.dev = [dev EXCEPT !.step = j, !.q = IF j <= NSteps(r.f) /\ j >= 0
                                                               THEN j ELSE @],
                         !.bad = @ \cup (IF fine THEN {} ELSE {"steps"})]
      [] op[1] = "s" -> [x EXCEPT !.dev.step = op[2]]
      [] OTHER -> x          \* "n", "S", "G": nothing was changed

\* (The context travels in the accumulator so that it is evaluated once.)
Ops(r, dev, ops) ==
    FoldLeft(LAMBDA x, op: Op(x, op), [dev |-> dev, bad |-> {}, r |-> r], ops)

Destructive(op) == op[1] \in {"e", "w", "c", "s"}

-----------------------------------------------------------------------------
(* The public calls.                                                          *)
IpProcessOk(o, e, final, x, n, res, ops, fault, frv, exact, rules) ==
    LET d2 == FeedTo(o, e, n)
    IN /\ x.bad \cap rules = {}
       /\ IF o.failed
          THEN /\ \A i \in 1..Len(ops) : ~Destructive(ops[i])
               /\ n > 0 => res < 0
               /\ (exact /\ n > 0) => res = AlreadyFailed
          ELSE IF fault = "X" THEN TRUE
          ELSE IF fault # "-" THEN res < 0 /\ (exact => res \in FaultCodes(TRUE, fault, frv))
          ELSE /\ res <= 0
               /\ res < 0 => Reason(d2, e, final) \/ ~SafeReads(final) \/ final.mem > Len(e.base)
               /\ (exact /\ res < 0 /\ IsError(d2) /\ d2.comp # 1) =>
                     \/ res \in CodeOf(d2.st)
                     \/ (d2.st \in {"io", "corrupt"} /\ res \in {IoFailed, CorruptPatch})
               /\ (o.d.st = "done" /\ o.d.comp # 1 /\ x.dev.fin) =>
                     (res = 0 /\ \A i \in 1..Len(ops) : ~Destructive(ops[i]))

IpProcessTo(o, e, n, res, fault) ==
    IF o.failed THEN o
    ELSE [o EXCEPT !.d = FeedTo(o, e, n), !.fed = @ + n, !.failed = (res < 0),
                   !.faulted = @ \/ fault # "-"]

IpFinalizeOk(o, e, final, x, res, ops, fault, frv, exact, rules, steps) ==
    /\ x.bad \cap rules = {}
    /\ IF o.failed
       THEN /\ \A i \in 1..Len(ops) : ~Destructive(ops[i])
            /\ res < 0
            /\ exact => res = AlreadyFailed
       ELSE IF fault = "X" THEN TRUE
       ELSE IF fault # "-" THEN res < 0 /\ (exact => res \in FaultCodes(TRUE, fault, frv))
       ELSE /\ res >= 0 =>
                 /\ o.d.st = "done"
                 /\ res = o.d.tosize
                 /\ (o.d.comp = 0 => o.d.surplus = 0 /\ o.fed = Len(e.patch))
                 /\ SafeReads(final) => SubSeq(x.dev.mem, 1, res) = o.d.out
                 /\ (steps /\ Proper(final) /\ "steps" \in rules) => x.dev.step = 0
            /\ (o.fed = Len(e.patch) /\ Proper(final) /\ final.mem <= Len(e.base)
                /\ ~(final.comp = 1 /\ e.lzbad)) => res = final.tosize
            /\ (exact /\ o.fed = 0) => res = ShortHeader
            /\ (exact /\ o.fed > 0 /\ o.d.st = "run" /\ o.d.comp # 1) =>
                    IF o.fed < Len(e.patch) THEN res = NotEnough
                    ELSE res \in {NotEnough, CorruptPatch}
=============================================================================
