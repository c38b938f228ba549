------------------------------ MODULE PatchGen ------------------------------
(***************************************************************************)
(* All patches that continue a given beginning with up to `more` bytes of    *)
(* a given alphabet: the reachable states of the patch automaton.  Every     *)
(* state is a patch together with its meaning and is printed for replay in   *)
(* the real code; the invariants are facts about the patch language itself.  *)
(***************************************************************************)
EXTENDS PatchCodec, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_DATA).cases

VARIABLES c, bytes, d, n
vars == <<c, bytes, d, n>>

C(k) == Cases[k]
FeedOne(k, dd, bs) ==
    Feed(dd, C(k).base, bs, Len(bs), Len(bs), <<>>, C(k).hw, C(k).hl)

Init ==
    /\ c \in 1..Len(Cases)
    /\ bytes = C(c).head
    /\ d = Meaning(C(c).kind, C(c).base, C(c).head, <<>>, C(c).hw, C(c).hl)
    /\ n = 0

Open == d.st = "run" \/ (d.st = "done" /\ d.surplus + d.rawsurplus = 0)

Next ==
    /\ Open /\ n < C(c).more
    /\ \E b \in ToSet(C(c).alphabet) :
        /\ bytes' = Append(bytes, b)
        /\ d' = FeedOne(c, d, bytes')
    /\ n' = n + 1 /\ UNCHANGED c

Spec == Init /\ [][Next]_vars

\* (What comes after the end is only counted as something or nothing.)
Norm(x) == [x EXCEPT !.surplus = 0, !.np = IF x.st = "done" THEN 0 ELSE @,
                     !.rawsurplus = IF x.surplus + @ > 0 THEN 1 ELSE 0]
\* The meaning does not depend on the cut into chunks: byte by byte, or the
\* whole, or any two parts.
Chunks ==
    LET k == C(c)
    IN \A i \in 0..Len(bytes) :
         Norm(Feed(Feed(DInit(k.kind), k.base, bytes, 1, i, <<>>, k.hw, k.hl),
                   k.base, bytes, i + 1, Len(bytes), <<>>, k.hw, k.hl)) = Norm(d)
\* Never more than announced, complete exactly when done.
Bounded == d.hdr = "body" => Len(d.out) <= d.tosize
Complete == d.st = "done" => Len(d.out) = d.tosize
\* Determined output is final.
Monotone == [][IsPrefix(d.out, d'.out)]_vars

Emit == PrintT("CASE " \o ToJson(<<c, bytes, d.st, d.surplus + d.rawsurplus, d.out, SafeReads(d)>>))
=============================================================================
