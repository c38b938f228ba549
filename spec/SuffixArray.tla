----------------------------- MODULE SuffixArray -----------------------------
(***************************************************************************)
(* What a suffix array is (IsSuffixArray), and a test that is linear in the   *)
(* text given the inverse array as a witness (RankCheck).  MCSuffix checks    *)
(* that they agree.  Positions count from 0; the text is a sequence; the      *)
(* array has one entry per suffix including the empty one.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Less(_, _, _)
\* suffix at i of t is smaller than suffix at j
Less(t, i, j) ==
    IF i = j THEN FALSE
    ELSE IF i >= Len(t) THEN TRUE
    ELSE IF j >= Len(t) THEN FALSE
    ELSE IF t[i + 1] # t[j + 1] THEN t[i + 1] < t[j + 1]
    ELSE Less(t, i + 1, j + 1)

IsSuffixArray(t, sa) ==
    /\ Len(sa) = Len(t) + 1
    /\ {sa[k] : k \in 1..Len(sa)} = 0..Len(t)
    /\ \A k \in 1..(Len(sa) - 1) : Less(t, sa[k], sa[k + 1])

\* inv[p + 1] is the index (from 1) of position p in sa.
RankCheck(t, sa, inv) ==
    /\ Len(sa) = Len(t) + 1 /\ Len(inv) = Len(sa)
    /\ \A k \in 1..Len(sa) : sa[k] >= 0 /\ sa[k] <= Len(t) /\ inv[sa[k] + 1] = k
    /\ sa[1] = Len(t)
    /\ \A k \in 2..(Len(sa) - 1) :
         LET a == sa[k] b == sa[k + 1]
         IN \/ t[a + 1] < t[b + 1]
            \/ t[a + 1] = t[b + 1] /\ inv[a + 2] < inv[b + 2]
=============================================================================
