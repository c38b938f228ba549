------------------------------- MODULE TraceDf -------------------------------
(***************************************************************************)
(* Sequential patches with a data format through the Python package.  A       *)
(* session is one patch with what was done with it:                           *)
(*   op "create"  images, options -> the patch; ... applied: ret, out           *)
(*   op "apply"   a patch made by hand -> ret, out                              *)
(*   op "info"    the patch -> the blocks reported                              *)
(*   op "damaged" any bytes: an image is told only if the patch is whole          *)
(***************************************************************************)
EXTENDS DfMeaning, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE_DATA).sessions
N == Len(T)

VARIABLES s, i, m, x
vars == <<s, i, m, x>>
Position == <<s, i>>

Create(e) ==
    /\ e.res = "ok"
    /\ Whole(m, e) /\ m.tosize = Len(e.to) /\ m.comp = e.comp
    /\ Format(m) = e.fmt
    /\ x.ok /\ x.out = e.to /\ x.P.used = Len(m.dfp)
    /\ e.applied = "ok" /\ e.ret = Len(e.to) /\ e.out = e.to

Apply(e) ==
    \/ ~x.ok
    \/ /\ e.applied = "ok" /\ e.ret = m.tosize /\ e.out = x.out

\* The blocks as patch_info tells them: <<[from, to, vs]>> for each list, and
\* the number of bytes their values take.
Info(e) ==
    \/ ~Whole(m, e) \/ ~x.P.ok
    \/ /\ e.res = "ok"
       /\ e.info.fmt = Format(m) /\ e.info.dfsize = Len(m.dfp)
       /\ e.info.tosize = m.tosize
       /\ e.info.data = x.P.data /\ e.info.code = x.P.code
       /\ (x.P.data => e.info.ranges[1] = <<x.P.off>> \o x.P.db \o x.P.de)
       /\ (x.P.code => e.info.ranges[2] = x.P.cb \o x.P.ce)
       /\ e.info.lists = x.P.lists
       /\ e.info.sizes = x.P.sizes

\* (What the blocks of a damaged patch say is not looked at.)
Damaged(e) ==
    /\ e.applied \in {"ok", "raise"}
    /\ \/ m.st \in {"open", "toobig"} \/ (m.st = "done" /\ m.tosize = 0)
       \/ e.applied = "ok" =>
            /\ m.st = "done" /\ m.surplus = 0
            /\ (Opaque(m.comp) => e.lzend \in {"whole", "open"})
            /\ (m.comp = 0 => m.rawsurplus = 0)
            /\ (m.comp = 2 => m.ck = "idle")
            /\ e.ret = m.tosize /\ Len(e.out) = m.tosize

Judge(e) == CASE e.op = "create" -> Create(e)
              [] e.op = "apply" -> Apply(e)
              [] e.op = "info" -> Info(e)
              [] e.op = "damaged" -> Damaged(e)

Init == s \in 1..N /\ i = 0 /\ m = 0 /\ x = 0
Read == i = 0 /\ m' = Contents(T[s]) /\ i' = 1 /\ UNCHANGED <<s, x>>
Mean == i = 1 /\ x' = (IF T[s].op = "damaged" THEN 0 ELSE Image(m, T[s])) /\ i' = 2 /\ UNCHANGED <<s, m>>
Check == i = 2 /\ Judge(T[s]) /\ i' = 3 /\ UNCHANGED <<s, m, x>>
Done == i = 3 /\ UNCHANGED vars
Next == Read \/ Mean \/ Check \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
