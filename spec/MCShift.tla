------------------------------- MODULE MCShift -------------------------------
(***************************************************************************)
(* In-place creation at the level of sizes: the shift the creator chooses     *)
(* (as many segments as possible, at least the minimum) and the part of the    *)
(* from-image each segment may use.  Sound: what segment i reads lies in the    *)
(* shifted from-image, inside the memory, and has not been overwritten.         *)
(***************************************************************************)
EXTENDS Integers
CONSTANT MaxMem
VARIABLES mem, seg, minshift, from, to, i
vars == <<mem, seg, minshift, from, to, i>>

CeilDiv(a, b) == (a + b - 1) \div b
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Shift == Max2((CeilDiv(mem, seg) - CeilDiv(from, seg)) * seg, minshift)
\* what is left of the from-image, and where segment i starts to use it
Kept == Min2(from, mem - Shift)
Offset == Max2((i + 1) * seg - Shift, 0)

Init ==
    /\ mem \in 1..MaxMem /\ seg \in 1..MaxMem /\ mem % seg = 0
    /\ minshift \in 0..mem /\ minshift % seg = 0
    /\ from \in 0..mem /\ to \in 0..mem
    /\ i = 0
Next == (i + 1) * seg < to /\ i' = i + 1 /\ UNCHANGED <<mem, seg, minshift, from, to>>
Spec == Init /\ [][Next]_vars

Sound ==
    /\ Shift % seg = 0 /\ Shift >= minshift /\ Shift <= mem
    /\ from <= mem - Shift \/ Shift = minshift
    /\ (Offset < Kept /\ i * seg < to) =>
         /\ Shift + Offset >= Min2((i + 1) * seg, to)        \* not yet overwritten
         /\ Shift + Offset >= Shift                          \* from-data, not what was there before
         /\ Shift + Kept <= mem
         \* the first address the applier uses is the first one the creator uses
         /\ Shift + Offset = Max2((i + 1) * seg, Shift)
=============================================================================
