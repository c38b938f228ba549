----------------------------- MODULE ElfSegments -----------------------------
(***************************************************************************)
(* The code and data segments of an ELF file, found by its symbols, and where  *)
(* the data lies in the binary made from it.                                  *)
(*   sections  <<[addr, off, size, data]>> in the order of the file            *)
(*   syms      <<[type, value, size]>>, type "func", "object" or other          *)
(* Several answers are allowed where segments are equally large.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

Within(x, a) == x.addr <= a /\ a < x.addr + x.size
\* The section of an address: the first that holds it, 0 if there is none.
SectionOf(e, a) == LET c == {k \in 1..Len(e.sections) : Within(e.sections[k], a)}
                   IN IF c = {} THEN 0 ELSE Min(c)

Counted(e) == SelectSeq(e.syms, LAMBDA y: y.type \in {"func", "object"} /\ y.size > 0)
Homeless(e) == \E k \in 1..Len(Counted(e)) : SectionOf(e, Counted(e)[k].value) = 0

\* Runs of symbols of one type in a section, in the order of their addresses.
Runs(e, sec) ==
    LET y == SortSeq(SelectSeq(Counted(e), LAMBDA z: SectionOf(e, z.value) = sec), LAMBDA a, b: a.value < b.value)
    IN FoldLeft(LAMBDA r, z: IF r # <<>> /\ r[Len(r)].type = z.type THEN [r EXCEPT ![Len(r)].hi = z.value + z.size]
                             ELSE Append(r, [type |-> z.type, lo |-> z.value, hi |-> z.value + z.size, sec |-> sec]),
                <<>>, y)
AllRuns(e) == [sec \in 1..Len(e.sections) |-> Runs(e, sec)]

Largest(S, none) == IF S = {} THEN {none} ELSE LET top == Max({x.hi - x.lo : x \in S}) IN {x \in S : x.hi - x.lo = top}

Nothing == [lo |-> 0, hi |-> 0, sec |-> 0]
\* Code: all functions of the section where they reach furthest.
Code(e) ==
    LET f == [sec \in 1..Len(e.sections) |-> SelectSeq(AllRuns(e)[sec], LAMBDA r: r.type = "func")]
    IN Largest({[lo |-> f[sec][1].lo, hi |-> f[sec][Len(f[sec])].hi, sec |-> sec] : sec \in {k \in 1..Len(e.sections) : f[k] # <<>>}}, Nothing)
\* Data: the largest run of objects, less the code in it.
Trim(r, c) == LET left == r.lo < c.lo /\ c.lo < r.hi
                  right == r.lo < c.hi /\ c.hi < r.hi
                  a == [lo |-> r.lo, hi |-> c.lo, sec |-> r.sec]
                  b == [lo |-> c.hi, hi |-> r.hi, sec |-> r.sec]
              IN IF left /\ right THEN Largest({a, b}, Nothing) ELSE IF left THEN {a} ELSE IF right THEN {b}
                 ELSE {[lo |-> r.lo, hi |-> r.hi, sec |-> r.sec]}
Data(e, c) == Largest(UNION {UNION {Trim(AllRuns(e)[sec][k], c) : k \in {k \in 1..Len(AllRuns(e)[sec]) : AllRuns(e)[sec][k].type = "object"}}
                             : sec \in 1..Len(e.sections)}, Nothing)

\* The first place of w in b, or -1.
Place1(w, b) == LET c == {k \in 0..(Len(b) - Len(w)) : \A j \in 1..Len(w) : b[k + j] = w[j]}
                IN IF c = {} THEN -1 ELSE Min(c)
Bytes(e, d) == LET x == e.sections[d.sec] n == Len(x.data)
                   lo == d.lo - x.addr hi == d.hi - x.addr
               IN SubSeq(x.data, lo + 1, IF hi < n THEN hi ELSE n)
\* The place of an address in the ELF file: in the lowest section that holds it.
FileOffset(e, a) == LET c == {k \in 1..Len(e.sections) : Within(e.sections[k], a)}
                        low == Min({e.sections[k].addr : k \in c})
                    IN {a - low + e.sections[k].off : k \in {k \in c : e.sections[k].addr = low}}

\* Where the data may be said to start; -1 if it cannot be found.
Starts(e, d, bin) == IF e.offset >= 0 THEN {o - e.offset : o \in FileOffset(e, d.lo)}
                     ELSE {Place1(Bytes(e, d), bin)}

\* The allowed answers: <<data offset, code, data>>; open if there is no data.
Answers(e, bin) == UNION {UNION {{<<o, c, d>> : o \in Starts(e, d, bin)} : d \in Data(e, c)} : c \in Code(e)}
NoData(e) == \A k \in 1..Len(Counted(e)) : Counted(e)[k].type # "object"
=============================================================================
