---------------------------- MODULE MCDataFormat ----------------------------
(***************************************************************************)
(* The design of data formats, on a small format of its own: one byte        *)
(* pointers in a data segment, calls (a byte 1 and an operand), and literals   *)
(* (two bytes) a load (a byte 2) two bytes before refers to; calls, literals   *)
(* and pointers may overlap.  Encoding picks any pairs of finds of the same     *)
(* kind, zeroes both, and keeps the differences of their values by index.       *)
(* Adding back must give the to-image exactly, whatever pairs were picked and    *)
(* however they overlap, if the from-image is read the same way both times      *)
(* (WrongRange: it is not).                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt
CONSTANTS Len1, Len2, WrongRange

Q == 3
Ranges == {<<0, 0>>, <<0, 2>>, <<1, 3>>}

Reading(img, r) ==
    LET n == Len(img) IN
    FoldLeft(LAMBDA x, k:
        IF x.pos >= n THEN x
        ELSE LET p == x.pos
                 b == img[p + 1]
             IN IF r[1] <= p /\ p < r[2] THEN [pos |-> p + 1, seen |-> IF b > 0 THEN x.seen \cup {<<"p", p>>} ELSE x.seen]
                ELSE IF <<"l", p>> \in x.seen THEN [x EXCEPT !.pos = p + 2]
                ELSE IF b = 1 THEN [pos |-> p + 2, seen |-> IF p + 2 <= n THEN x.seen \cup {<<"c", p>>} ELSE x.seen]
                ELSE IF b = 2 THEN [pos |-> p + 1, seen |-> IF p + 3 <= n THEN x.seen \cup {<<"l", p + 1>>} ELSE x.seen]
                ELSE [x EXCEPT !.pos = p + 1],
        [pos |-> 0, seen |-> {}], [k \in 1..n |-> k]).seen

Of(seen, kind) == SetToSortSeq({y[2] : y \in {z \in seen : z[1] = kind}}, <)
Width(kind) == IF kind = "p" THEN 1 ELSE 2
Value(img, kind, a) == CASE kind = "p" -> img[a + 1] [] kind = "c" -> img[a + 2] [] OTHER -> img[a + 1] + Q * img[a + 2]
Pack(kind, v) == CASE kind = "p" -> <<v>> [] kind = "c" -> <<1, v>> [] OTHER -> <<v % Q, v \div Q>>
Mod(kind) == IF kind = "l" THEN Q * Q ELSE Q

Zero(img, fs) == [k \in 1..Len(img) |-> IF \E f \in fs : k > f[2] /\ k <= f[2] + Width(f[1]) THEN 0 ELSE img[k]]

VARIABLES from, to, range, pairs
vars == <<from, to, range, pairs>>

Init == /\ from \in [1..Len1 -> 0..(Q - 1)] /\ to \in [1..Len2 -> 0..(Q - 1)]
        /\ range \in Ranges
        \* <<kind, from index, to address>>
        /\ LET rf == Reading(from, range)
               rt == Reading(to, range)
           IN pairs \in SUBSET UNION {{<<k, j, a>> : j \in 1..Len(Of(rf, k)), a \in ToSet(Of(rt, k))} : k \in {"p", "c", "l"}}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* What the patch holds: differences and the rest of the to-image.
Seq1 == SetToSeq(pairs)
Diffs == LET rf == Reading(from, range)
         IN [k \in 1..Len(Seq1) |-> Value(from, Seq1[k][1], Of(rf, Seq1[k][1])[Seq1[k][2]]) - Value(to, Seq1[k][1], Seq1[k][3])]
Rest == Zero(to, {<<p[1], p[3]>> : p \in pairs})

\* The patch knows where the data segment starts and how long it is in memory.
ApplyRange == IF WrongRange THEN <<range[1], range[2] + 1>> ELSE range
Applied ==
    LET rf == Reading(from, ApplyRange)
        d == FoldLeft(LAMBDA f, k:
                LET kind == Seq1[k][1]
                    adr == Of(rf, kind)
                IN IF Seq1[k][2] > Len(adr) THEN <<>>
                   ELSE IF f = <<>> THEN f
                   ELSE LET b == Pack(kind, (Value(from, kind, adr[Seq1[k][2]]) - Diffs[k]) % Mod(kind))
                        IN [j \in 1..Len(f) |-> IF j > Seq1[k][3] /\ j <= Seq1[k][3] + Len(b) THEN b[j - Seq1[k][3]] ELSE f[j]],
             [j \in 1..Len(to) |-> 0], [k \in 1..Len(Seq1) |-> k])
    IN IF d = <<>> THEN <<>> ELSE [j \in 1..Len(to) |-> (Rest[j] + d[j]) % Q]

\* The records refer to the from-image with the same bytes zeroed.
Exact == /\ Applied = to
         /\ LET z(r) == Zero(from, {<<p[1], Of(Reading(from, r), p[1])[p[2]]>> : p \in pairs})
            IN z(range) = z(ApplyRange)
=============================================================================
