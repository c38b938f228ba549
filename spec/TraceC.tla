------------------------------ MODULE TraceC ------------------------------
(***************************************************************************)
(* Trace specification for the C library: every recorded session must be a  *)
(* behaviour of SeqApply / InPlace.  A session is a sequence of public      *)
(* calls on up to four objects, in any interleaving.  A session that is no  *)
(* behaviour deadlocks.                                                     *)
(***************************************************************************)
EXTENDS InPlace, Json, IOUtils

CONSTANTS Rules, Exact, Dynamic

Data == JsonDeserialize(IOEnv.TRACE_DATA)
Sessions == Data.sessions

HwOf(e) == e.hw

VARIABLES s, i, objs, devs, slots,
          final,      \* meaning of the whole patch of each object
          table       \* in-place requirement tables

vars == <<s, i, objs, devs, slots, final, table>>
\* A session is deterministic, so its position identifies the state.
Position == <<s, i>>

Env(k) == Sessions[s].env[k]
Final(k) == final[k]
Ev == Sessions[s].ev[i]
K == Ev.k + 1

Built(e) == {e.lib[j] : j \in 1..Len(e.lib)}
Blank(e) == [NewObject(e.kind) EXCEPT !.d.lib = Built(e)]

Init ==
    /\ s \in 1..Len(Sessions)
    /\ i = 1
    /\ objs = [k \in 1..Len(Sessions[s].env) |-> Blank(Sessions[s].env[k])]
    /\ devs = [k \in 1..Len(Sessions[s].env) |->
                 IF Sessions[s].env[k].kind = "inp" THEN NewDevice(Sessions[s].env[k].base)
                 ELSE <<>>]
    /\ slots = <<NewObject("seq"), NewObject("seq"), NewObject("seq"), NewObject("seq")>>
    /\ final = [k \in 1..Len(Sessions[s].env) |->
                  LET e == Sessions[s].env[k]
                  IN MeaningFrom(Blank(e).d, e.base, e.patch, e.lz, e.hw, e.hl)]
    /\ table = [k \in 1..Len(Sessions[s].env) |->
                  LET e == Sessions[s].env[k]
                      f == final[k]
                  IN IF e.kind = "inp" /\ Proper(f) /\ f.mem = Len(e.base)
                     THEN ReqTable(f, e.base) ELSE <<>>]

Is(name) == i <= Len(Sessions[s].ev) /\ Ev.e = name
Step == i' = i + 1 /\ UNCHANGED <<s, final, table>>

IsSeq == Env(K).kind = "seq"
IsInp == Env(K).kind = "inp"

\* The context of a memory operation in a call that has been given n bytes.
Ctx(n) ==
    LET d2 == IF objs[K].failed THEN objs[K].d ELSE FeedTo(objs[K], Env(K), n)
        f == IF d2.hdr = "body" THEN d2 ELSE Final(K)
    IN [proper |-> table[K] # <<>>,
        f |-> Final(K),
        req |-> table[K],
        mem0 |-> Env(K).base,
        steps |-> Env(K).steps,
        hdr |-> d2.hdr = "body" /\ ~BadComp(FALSE, d2.lib, d2.comp) /\ GeomOk(d2)]

New ==
    /\ Is("I") /\ Ev.res = 0
    /\ objs' = [objs EXCEPT ![K] = Blank(Env(K))]
    /\ devs' = IF IsInp THEN [devs EXCEPT ![K].q = IF devs[K].fin THEN @ ELSE devs[K].step] ELSE devs
    /\ UNCHANGED slots /\ Step

ProcessSeq ==
    /\ Is("p") /\ IsSeq
    /\ ProcessOk(objs[K], Env(K), Final(K), Ev.n, Ev.res, Ev.w, Ev.fault, Ev.frv, Ev.ncb, Exact)
    /\ objs' = [objs EXCEPT ![K] = ProcessTo(@, Env(K), Ev.n, Ev.res, Ev.w, Ev.fault, Ev.ncb)]
    /\ UNCHANGED <<devs, slots>> /\ Step

FinalizeSeq ==
    /\ Is("f") /\ IsSeq
    /\ FinalizeOk(objs[K], Env(K), Final(K), Ev.res, Ev.w, Ev.fault, Ev.frv, Exact)
    /\ objs' = [objs EXCEPT ![K] = FinalizeTo(@, Ev.res, Ev.w)]
    /\ UNCHANGED <<devs, slots>> /\ Step

Dump ==
    /\ Is("d")
    /\ DumpOk(objs[K], Ev.res, Ev.fault, Ev.frv, Dynamic, Exact)
    /\ slots' = IF Ev.res = 0 THEN [slots EXCEPT ![Ev.slot + 1] = objs[K]] ELSE slots
    /\ UNCHANGED <<objs, devs>> /\ Step

Restore ==
    /\ Is("r")
    /\ RestoreOk(slots[Ev.slot + 1], Ev.res, Ev.po, Ev.to, Ev.fault, Ev.frv, Exact)
    /\ objs' = [objs EXCEPT ![K] = IF Ev.res < 0 THEN [@ EXCEPT !.failed = TRUE]
                                   ELSE RestoreTo(slots[Ev.slot + 1], Ev.po)]
    /\ UNCHANGED <<devs, slots>> /\ Step

Offsets ==
    /\ Is("o")
    /\ OffsetsOk(objs[K], Ev.po, Ev.to)
    /\ UNCHANGED <<objs, devs, slots>> /\ Step

\* The pull-style interface: init, process of everything, finalize in one.
PullSeq ==
    /\ Is("c") /\ IsSeq
    /\ LET o == [Blank(Env(K)) EXCEPT !.d = Final(K), !.fed = Len(Env(K).patch)]
       IN IF Ev.fault # "-"
          THEN /\ Ev.res < 0 /\ PrefixOf(Ev.w, Final(K))
               /\ Exact => Ev.res \in FaultCodes(FALSE, Ev.fault, Ev.frv)
          ELSE FinalizeOk(o, Env(K), Final(K), Ev.res, Ev.w, Ev.fault, Ev.frv, FALSE)
    /\ objs' = [objs EXCEPT ![K] = [@ EXCEPT !.fin = TRUE, !.failed = (Ev.res < 0), !.sink = Ev.w]]
    /\ UNCHANGED <<devs, slots>> /\ Step

ProcessInp ==
    /\ Is("p") /\ IsInp
    /\ LET x == Ops(Ctx(Ev.n), devs[K], Ev.ops)
       IN /\ IpProcessOk(objs[K], Env(K), Final(K), x, Ev.n, Ev.res, Ev.ops, Ev.fault, Ev.frv, Exact, Rules)
          /\ objs' = [objs EXCEPT ![K] = IpProcessTo(@, Env(K), Ev.n, Ev.res, Ev.fault)]
          /\ devs' = [devs EXCEPT ![K] = x.dev]
    /\ UNCHANGED slots /\ Step

FinalizeInp ==
    /\ Is("f") /\ IsInp
    /\ LET x == Ops(Ctx(0), devs[K], Ev.ops)
       IN /\ IpFinalizeOk(objs[K], Env(K), Final(K), x, Ev.res, Ev.ops, Ev.fault, Ev.frv, Exact, Rules,
                          Env(K).steps)
          /\ objs' = [objs EXCEPT ![K] = FinalizeTo(@, Ev.res, <<>>)]
          /\ devs' = [devs EXCEPT ![K] = x.dev]
    /\ UNCHANGED slots /\ Step

PullInp ==
    /\ Is("c") /\ IsInp
    /\ LET o == Blank(Env(K))
           o2 == IpProcessTo(o, Env(K), Len(Env(K).patch), 0, "-")
           c == [proper |-> table[K] # <<>>, f |-> Final(K), req |-> table[K],
                 mem0 |-> Env(K).base, steps |-> Env(K).steps,
                 hdr |-> Final(K).hdr = "body" /\ ~BadComp(FALSE, Final(K).lib, Final(K).comp) /\ GeomOk(Final(K))]
           dv == [devs[K] EXCEPT !.q = IF devs[K].fin THEN @ ELSE devs[K].step]
           x == Ops(c, dv, Ev.ops)
       IN /\ IpFinalizeOk(o2, Env(K), Final(K), x, Ev.res, Ev.ops, Ev.fault, Ev.frv, FALSE, Rules,
                          Env(K).steps)
          /\ devs' = [devs EXCEPT ![K] = x.dev]
          /\ objs' = [objs EXCEPT ![K] = [@ EXCEPT !.fin = TRUE, !.failed = (Ev.res < 0)]]
    /\ UNCHANGED slots /\ Step

\* What the memory and the step really are in the end.
Memory ==
    /\ Is("m")
    /\ IsInp => (Ev.img = devs[K].mem /\ Ev.step = devs[K].step)
    /\ UNCHANGED <<objs, devs, slots>> /\ Step

Done == i > Len(Sessions[s].ev) /\ UNCHANGED vars

Next == New \/ ProcessSeq \/ FinalizeSeq \/ Dump \/ Restore \/ Offsets \/ PullSeq
        \/ ProcessInp \/ FinalizeInp \/ PullInp \/ Memory \/ Done

Spec == Init /\ [][Next]_vars

\* An accepted success is a complete image (stated once more, on the state).
SuccessIsComplete ==
    \A k \in DOMAIN objs :
        (objs[k].fin /\ ~objs[k].failed /\ Env(k).kind = "seq") =>
            objs[k].sink = Final(k).out
=============================================================================
