------------------------------ MODULE MCSuffix ------------------------------
(* For every small text and every arrangement of its positions the two        *)
(* definitions of a suffix array agree, and there is exactly one.              *)
EXTENDS SuffixArray, TLC
CONSTANTS MaxLen, Alphabet
VARIABLE t
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Perms(n) == {f \in [1..(n + 1) -> 0..n] : \A i, j \in 1..(n + 1) : i # j => f[i] # f[j]}
Inverse(f, n) == [p \in 1..(n + 1) |-> CHOOSE k \in 1..(n + 1) : f[k] = p - 1]
Init == t \in Texts
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
Agree == \A f \in Perms(Len(t)) : IsSuffixArray(t, f) = RankCheck(t, f, Inverse(f, Len(t)))
One == Cardinality({f \in Perms(Len(t)) : IsSuffixArray(t, f)}) = 1
=============================================================================
