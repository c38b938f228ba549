------------------------------ MODULE MCInPlace ------------------------------
(***************************************************************************)
(* Why the in-place rules are enough: any implementation that keeps them     *)
(* (operations only inside the region of the step after the stored one, only *)
(* erased bytes written, a step stored when its region is complete) survives *)
(* a loss of power at any instant, also in the middle of an operation, any   *)
(* number of times.                                                          *)
(*                                                                           *)
(* The implementation is free in the order and size of erases and writes;    *)
(* what it writes is computed from the memory as it is at that moment, so    *)
(* that a source destroyed too early shows up as a wrong image.              *)
(*                                                                           *)
(* Mode "ok" is the design; the other modes are broken designs that must     *)
(* be refuted (they show that the invariants can fail):                      *)
(*   "upwards"   segments are shifted up first segment first                 *)
(*   "eager"     a step is stored before its region is complete              *)
(*   "nostep"    steps are not stored at all                                 *)
(*   "unsafe"    the patch reads what an earlier segment overwrote           *)
(***************************************************************************)
EXTENDS InPlace

CONSTANTS Mode, MaxMem, Crashes

VARIABLES f,        \* geometry and reads of the patch (a decoder state)
          mem0,     \* the memory before the first attempt
          mem, er, step,
          run,      \* an apply is running
          done,     \* what the running step has written
          fin, crashes
vars == <<f, mem0, mem, er, step, run, done, fin, crashes>>

Garbage == 0
Old(i) == 10 + i
NewB(i) == 30 + i

\* All geometries, and for every segment one range of from-data.
Geos == {g \in [mem : 1..MaxMem, seg : 1..MaxMem, shift : 0..MaxMem, from : 0..MaxMem, to : 1..MaxMem] :
            /\ g.mem % g.seg = 0 /\ g.shift % g.seg = 0
            /\ g.shift <= g.mem /\ g.to <= g.mem /\ g.from <= g.mem}
Base(g) == [DInit("inp") EXCEPT !.mem = g.mem, !.seg = g.seg, !.shift = g.shift,
                                !.fromsize = g.from, !.tosize = g.to,
                                !.out = [i \in 1..g.to |-> NewB(i)]]
ReadChoices(g, k) ==
    LET lo == IF Mode = "unsafe" THEN 0 ELSE k * g.seg
    IN {<<>>} \cup {<<<<k, a, b>>>> : a \in {lo, lo + 1, g.mem - 1} \cap lo..g.mem,
                                      b \in {lo + 1, g.mem} \cap lo..g.mem}
Segs(g) == CeilDiv(g.to, g.seg)
Plans(g) == IF Segs(g) = 1 THEN ReadChoices(g, 1)
            ELSE {a \o b : a \in ReadChoices(g, 1), b \in ReadChoices(g, Segs(g))}

Init ==
    /\ \E g \in Geos : \E r \in Plans(g) :
          /\ \A x \in ToSet(r) : x[2] < x[3]
          /\ f = [Base(g) EXCEPT !.reads = r]
          /\ mem0 = [i \in 1..g.mem |-> Old(i)]
    /\ mem = mem0
    /\ er = [i \in 1..Len(mem0) |-> FALSE]
    /\ step = 0 /\ run = TRUE /\ done = {} /\ fin = FALSE /\ crashes = 0

N == NSteps(f)
NS == NShift(f)
Cur == step + 1
Reg(j) == IF Mode = "upwards" /\ j <= NS THEN <<f.shift + (j - 1) * f.seg, f.shift + j * f.seg>>
          ELSE Region(f, j)
Target(j) == StepContent(f, mem0, j)

\* What the implementation computes for address a (from 0) of step j.
Value(j, a) ==
    IF j <= NS THEN mem[a - f.shift + 1]
    ELSE LET r == SelectSeq(f.reads, LAMBDA x: x[1] = j - NS)
             good == \A x \in ToSet(r) : \A b \in (x[2] + 1)..x[3] : mem[b] = Shifted(f, mem0)[b]
         IN IF good THEN f.out[a + 1] ELSE Garbage

Active == run /\ ~fin /\ Cur <= N
Bytes(j) == (Reg(j)[1])..(Reg(j)[2] - 1)

Erase ==
    /\ Active /\ done = {}
    /\ \E lo \in Bytes(Cur) : \E hi \in {lo} \cup {Reg(Cur)[2] - 1} :
        /\ lo <= hi
        /\ \A b \in lo..hi : ~er[b + 1]
        /\ mem' = [i \in DOMAIN mem |-> IF i - 1 \in lo..hi THEN 255 ELSE mem[i]]
        /\ er' = [i \in DOMAIN er |-> er[i] \/ i - 1 \in lo..hi]
    /\ UNCHANGED <<f, mem0, step, run, done, fin, crashes>>

\* (Shifts read a whole segment before they erase: Value is taken then.)
Write ==
    /\ Active /\ \A b \in Bytes(Cur) : er[b + 1] \/ b \in done
    /\ \E b \in Bytes(Cur) \ done :
        /\ mem' = [mem EXCEPT ![b + 1] = Value(Cur, b)]
        /\ er' = [er EXCEPT ![b + 1] = FALSE]
        /\ done' = done \cup {b}
    /\ UNCHANGED <<f, mem0, step, run, fin, crashes>>

Store ==
    /\ Active
    /\ Mode = "eager" \/ done = Bytes(Cur)
    /\ step' = Cur /\ done' = {}
    /\ UNCHANGED <<f, mem0, mem, er, run, fin, crashes>>

Finish ==
    /\ run /\ ~fin /\ step = N
    /\ fin' = TRUE
    /\ UNCHANGED <<f, mem0, mem, er, step, run, done, crashes>>

\* Power is lost; an operation that was going on leaves anything behind.
Crash ==
    /\ run /\ ~fin /\ crashes < Crashes
    /\ run' = FALSE /\ crashes' = crashes + 1 /\ done' = {}
    /\ er' = [i \in DOMAIN er |-> FALSE]
    /\ step' = IF Mode = "nostep" THEN 0 ELSE step
    /\ \/ mem' = mem
       \/ /\ Cur <= N
          /\ \E b \in Bytes(Cur) :
                mem' = [mem EXCEPT ![b + 1] = Garbage]
    /\ UNCHANGED <<f, mem0, fin>>

Restart ==
    /\ ~run /\ run' = TRUE
    /\ UNCHANGED <<f, mem0, mem, er, step, done, fin, crashes>>

Next == Erase \/ Write \/ Store \/ Finish \/ Crash \/ Restart
Spec == Init /\ [][Next]_vars /\ WF_vars(Erase \/ Write \/ Store \/ Finish \/ Restart)

\* What the rest of the apply needs is there, at every instant.
Recoverable == fin \/ LET req == ReqTable(f, mem0)[step + 1] IN Holds(req, mem)
\* The image in the end.
Right == fin => SubSeq(mem, 1, f.tosize) = f.out
\* Every stored step is really done.
StoredIsDone ==
    (step > 0 /\ ~fin) =>
        LET g == Reg(step) IN step = N => SubSeq(mem, g[1] + 1, g[2]) = Target(step)
\* The rules of the trace specification agree with the design: the operations
\* above break none of them (checked by evaluating them on every state).
RulesAgree ==
    (Active /\ Mode = "ok") =>
        \A b \in Bytes(Cur) : ReqTable(f, mem0)[step + 2 - 1][b + 1] = -1
Completes == <>fin
=============================================================================
