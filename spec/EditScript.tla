----------------------------- MODULE EditScript -----------------------------
(***************************************************************************)
(* The output of the delta generator: five chunks per record (packed diff     *)
(* size, diff data, packed extra size, extra data, packed adjustment), as an   *)
(* edit script over the from-image.                                          *)
(***************************************************************************)
EXTENDS PatchCodec

\* The packed number, or "bad" if it is not the shortest form.
Num(bs) == LET v == FoldLeft(LAMBDA x, b: VByte(x, b), VInit, bs)
           IN IF bs # <<>> /\ ~v.more /\ ~v.ovf /\ PackSize(VVal(v)) = bs THEN <<TRUE, VVal(v)>> ELSE <<FALSE, 0>>

\* x = [ok, out, pos]; record k of chunks.
Record(x, chunks, frm, k) ==
    LET at == 5 * (k - 1)
        d == Num(chunks[at + 1]) dd == chunks[at + 2]
        e == Num(chunks[at + 3]) ee == chunks[at + 4]
        a == Num(chunks[at + 5])
        good == /\ x.ok
                /\ d[1] /\ e[1] /\ a[1]
                /\ d[2] = Len(dd) /\ e[2] = Len(ee)
                /\ x.pos + Len(dd) <= Len(frm)
                /\ x.pos + Len(dd) + a[2] >= 0
    IN IF ~good THEN [x EXCEPT !.ok = FALSE]
       ELSE [ok |-> TRUE,
             out |-> x.out \o [j \in 1..Len(dd) |-> (dd[j] + frm[x.pos + j]) % 256] \o ee,
             pos |-> x.pos + Len(dd) + a[2]]

Play(chunks, frm) ==
    FoldLeft(LAMBDA x, k: Record(x, chunks, frm, k), [ok |-> TRUE, out |-> <<>>, pos |-> 0],
             [k \in 1..(Len(chunks) \div 5) |-> k])

\* A complete script from frm to to.
Script(chunks, frm, to) ==
    /\ Len(chunks) % 5 = 0
    /\ LET x == Play(chunks, frm) IN x.ok /\ x.out = to

AddBytes(a, b) == [k \in 1..Len(a) |-> (a[k] + b[k]) % 256]
=============================================================================
