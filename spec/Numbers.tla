------------------------------- MODULE Numbers -------------------------------
(***************************************************************************)
(* Size numbers of any magnitude.  An integer is [neg, bits] with bits the   *)
(* binary digits of the magnitude, least significant first, without leading  *)
(* (here: trailing) zeros.  TLC's integers have 32 bits only, the format      *)
(* knows no limit.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] OTHER -> 64
\* The value of at most seven bits.
Digit(bits) == FoldLeft(LAMBDA a, k: a + bits[k] * Pow2(k - 1), 0, [k \in 1..Len(bits) |-> k])
Bits7(x, n) == [k \in 1..n |-> (x \div Pow2(k - 1)) % 2]

RECURSIVE Strip(_)
Strip(b) == IF b = <<>> \/ b[Len(b)] = 1 THEN b ELSE Strip(SubSeq(b, 1, Len(b) - 1))
Part(b, lo, hi) == SubSeq(b, lo, IF hi > Len(b) THEN Len(b) ELSE hi)

\* The continuation: groups of seven bits.
RECURSIVE Groups(_)
Groups(b) == IF Len(b) <= 7 THEN <<Digit(b)>>
             ELSE <<128 + Digit(SubSeq(b, 1, 7))>> \o Groups(SubSeq(b, 8, Len(b)))

\* The one shortest encoding.
PackSigned(x) ==
    LET s == IF x.neg /\ x.bits # <<>> THEN 64 ELSE 0
    IN IF Len(x.bits) <= 6 THEN <<s + Digit(x.bits)>>
       ELSE <<128 + s + Digit(SubSeq(x.bits, 1, 6))>> \o Groups(SubSeq(x.bits, 7, Len(x.bits)))
PackUnsigned(b) == Groups(b)

\* Where the number that starts p ends (0 if it does not).
End(p) == LET ends == {k \in 1..Len(p) : p[k] < 128}
          IN IF ends = {} THEN 0 ELSE CHOOSE k \in ends : \A j \in ends : k <= j

UnpackUnsigned(p) ==
    LET n == End(p)
    IN [used |-> n, bits |-> Strip(FlattenSeq([k \in 1..n |-> Bits7(p[k] % 128, 7)]))]
UnpackSigned(p) ==
    LET n == End(p)
        b == Strip(FlattenSeq([k \in 1..n |-> IF k = 1 THEN Bits7(p[1] % 64, 6) ELSE Bits7(p[k] % 128, 7)]))
    IN [used |-> n, bits |-> b, neg |-> (p[1] \div 64) % 2 = 1 /\ b # <<>>]
=============================================================================
