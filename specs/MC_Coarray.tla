----------------------------- MODULE MC_Coarray -----------------------------
(* P03: every placement of elements on a small grid: all sets of positions   *)
(* up to an aperture, in two orders, and all short sequences with repetitions.*)
EXTENDS MC, Coarray
CONSTANTS Ap,     \* aperture of the sets of positions
          L, W    \* sequences of length L over 0..W
Sorted(S) == SetToSortSeq(S, <)
Placements ==
    { Sorted(S \cup {0}) : S \in SUBSET (1..Ap) }
    \cup { Reverse(Sorted({ x - 2 : x \in S \cup {1} })) : S \in SUBSET (0..(Ap - 2)) }
    \cup [1..L -> 0..W]
Q(q) == [op |-> q, w |-> "w"]
Script(x) ==
    << [op |-> "gridarr", idx |-> IntCol(x), d0 |-> NumTok("0.5"), name |-> "g", out |-> "a"], [op |-> "wf", a |-> "a", out |-> "w"],
       [op |-> "wf_ula", w |-> "w", excl |-> TRUE], [op |-> "wf_sel", w |-> "w", excl |-> FALSE, out |-> "F"],
       Q("wf_diffs"), Q("wf_weights"), Q("wf_len"), [op |-> "poke", x |-> "F"],
       [op |-> "wf_sel", w |-> "w", excl |-> TRUE], [op |-> "wf_ula", w |-> "w", excl |-> FALSE], [op |-> "wf_sel", w |-> "w", excl |-> FALSE] >>
    \o [i \in 1..3 |-> [op |-> "wf_indices", w |-> "w", d |-> i - 2]]
    \o << [op |-> "wf_of", w |-> "w", d |-> x[1] - x[Len(x)]], [op |-> "wf_call", w |-> "w", d |-> x[Len(x)] - x[1] + 1], [op |-> "aview", a |-> "a"] >>
Init == \E x \in Placements : CaseInit(Script(x))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

X == heap["w"].idx
D == DiffSet(X)
M == Len(X)
Symmetric == \A d \in D : -d \in D /\ Weight(X, d) = Weight(X, -d)
Total     == SeqSum([k \in 1..Cardinality(D) |-> Weight(X, DiffSeq(X)[k])]) = M * M
Twins(k)  == Cardinality({ i \in 1..M : X[i] = X[k] })
ZeroLag   == Weight(X, 0) = SeqSum([k \in 1..M |-> Twins(k)])
Positions == \A d \in D : Cardinality(VecPos(X, d)) = Weight(X, d) /\ \A p \in VecPos(X, d) : p \in 0..(M * M - 1)
Partition == UNION { VecPos(X, d) : d \in D } = 0..(M * M - 1)
Central   == LET n == CentralMv(X) IN (\A d \in (1 - n)..(n - 1) : d \in D) /\ n \notin D /\ UlaLen(X, FALSE) = 2 * UlaLen(X, TRUE) - 1
\* averaging leaves a function of the difference alone as it is, and uses every weight exactly once
Averages  == \A excl \in BOOLEAN :
    LET F == SelMat(X, excl)  n == UlaLen(X, excl)  lo == IF excl THEN 0 ELSE 1 - CentralMv(X)
        v == Vec(M * M, LAMBDA c : Tok(Int2Str(3 * (X[((c-1) % M) + 1] - X[((c-1) \div M) + 1]) + 1)))
    IN \A k \in 1..n : NEq(NSum([c \in 1..(M * M) |-> NMul(F[k][c], v[c])]), 3 * (lo + k - 1) + 1)
\* shifting or reordering the elements changes no weight
Invariant == \A d \in D : Weight(Reverse(X), d) = Weight(X, d) /\ Weight([i \in 1..M |-> X[i] + 7], d) = Weight(X, d)
=============================================================================
