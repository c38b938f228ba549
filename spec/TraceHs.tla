------------------------------- MODULE TraceHs -------------------------------
(***************************************************************************)
(* Trace specification for the heatshrink decoder as a component: sink,     *)
(* poll and finish in any order.                                            *)
(*   acc   bytes accepted so far; dec/all: decoder and everything they       *)
(*         determine                                                        *)
(*   got   number of bytes delivered                                         *)
(*   idle  the last poll said "empty" and nothing was sunk since             *)
(***************************************************************************)
EXTENDS PatchCodec, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_DATA)
Sessions == Data.sessions
CONSTANT Static

VARIABLES s, i, x, got, idle, pend, alive
vars == <<s, i, x, got, idle, pend, alive>>
Position == <<s, i>>

\* x = [d, o]: the bit decoder and everything it has determined.
Fresh == [d |-> [DInit("seq") EXCEPT !.ck = "tag"], o |-> <<>>]
P == Sessions[s].par        \* buffer, window, lookahead
Ev == Sessions[s].ev[i]
Is(name) == i <= Len(Sessions[s].ev) /\ Ev.e = name
Step == i' = i + 1 /\ UNCHANGED s

ParamsOk(p) == /\ p.b > 0 /\ p.w >= 4 /\ p.w <= 15 /\ p.l >= 3 /\ p.l < p.w

Init ==
    /\ s \in 1..Len(Sessions)
    /\ i = 1 /\ x = Fresh /\ got = 0 /\ idle = TRUE /\ pend = 0 /\ alive = FALSE

Alloc ==
    /\ Is("a")
    /\ Ev.ok = (Static \/ ParamsOk(P))
    /\ x' = Fresh /\ got' = 0 /\ idle' = TRUE /\ pend' = 0 /\ alive' = Ev.ok /\ Step

Reset ==
    /\ Is("R") /\ alive
    /\ x' = Fresh /\ got' = 0 /\ idle' = TRUE /\ pend' = 0 /\ UNCHANGED alive /\ Step

\* pend: bytes sunk since the decoder was idle, at most the buffer size.
Sink ==
    /\ Is("s") /\ alive
    /\ Ev.k >= 0 /\ Ev.k <= Len(Ev.data)
    /\ idle /\ Len(Ev.data) > 0 => Ev.k > 0
    /\ Ev.res \in {0, 1}
    /\ Ev.res = 1 => Ev.k = 0
    /\ Ev.k = 0 /\ Len(Ev.data) > 0 => Ev.res = 1
    \* An empty buffer takes what fits into it.
    /\ idle => Ev.k = Min2(Len(Ev.data), P.b)
    /\ pend + Ev.k <= P.b \/ ~idle
    /\ x' = FoldLeft(LAMBDA y, b: HsBits(y, b, P.w, P.l), x, SubSeq(Ev.data, 1, Ev.k))
    /\ idle' = (idle /\ Ev.k = 0)
    /\ pend' = pend + Ev.k
    /\ UNCHANGED <<got, alive>> /\ Step

Poll ==
    /\ Is("p") /\ alive
    /\ ~Ev.over
    /\ Ev.k = Len(Ev.w) /\ Ev.k <= Ev.n
    /\ got + Ev.k <= Len(x.o)
    /\ Ev.w = SubSeq(x.o, got + 1, got + Ev.k)
    /\ Ev.res \in {0, 1}
    /\ Ev.res = 0 => got + Ev.k = Len(x.o)
    /\ Ev.res = 1 => Ev.k = Ev.n
    /\ got' = got + Ev.k
    /\ idle' = (Ev.res = 0)
    /\ pend' = IF Ev.res = 0 THEN 0 ELSE pend
    /\ UNCHANGED <<x, alive>> /\ Step

\* (Between "delivered everything" and "known to be idle" either answer is right:
\* the bits left over may or may not have been looked at.)
Finish ==
    /\ Is("f") /\ alive
    /\ Ev.res \in {0, 1}
    /\ got < Len(x.o) => Ev.res = 1
    /\ idle => Ev.res = 0
    /\ UNCHANGED <<x, got, idle, pend, alive>> /\ Step

Done == i > Len(Sessions[s].ev) /\ UNCHANGED vars
Next == Alloc \/ Reset \/ Sink \/ Poll \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
