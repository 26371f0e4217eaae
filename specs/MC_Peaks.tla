------------------------------ MODULE MC_Peaks ------------------------------
(* P08: the peak rule on every sequence and every small matrix of a few      *)
(* values, and the selection of the highest peaks.                           *)
EXTENDS MC
CONSTANTS L, V,      \* sequences of up to L values in 0..V
          A          \* matrices with up to A entries of values in 0..2
Seqs == UNION { [1..n -> 0..V] : n \in 1..L }
Shapes == { <<p, q>> \in (1..A) \X (1..A) : p * q <= A }
Mats == UNION { [1..(s[1] * s[2]) -> 0..2] \X {s} : s \in Shapes }
VecV(x) == VecTok(Len(x), RowOf([i \in 1..Len(x) |-> Int2Str(x[i])]))
MatV(x, s) == MatTok(s[1], s[2], [i \in 1..s[1] |-> RowOf([j \in 1..s[2] |-> Int2Str(x[(i-1) * s[2] + j])])])
Script(v) == << [op |-> "val", out |-> "x", v |-> v], [op |-> "peaks", x |-> Ref("x")] >>
Init == \/ \E x \in Seqs : CaseInit(Script(VecV(x)))
        \/ \E m \in Mats : CaseInit(Script(MatV(m[1], m[2])))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

X == heap["x"]
S == AsFlat(X)
Sh == X.sh
Q == DefaultPeaks(S, Sh)
OneD == Len(Sh) = 1
NeverAnEnd == OneD => 1 \notin Q /\ Len(S) \notin Q
StrictOnes == OneD => \A i \in 2..(Len(S)-1) : (Lt(S[i-1], S[i]) /\ Lt(S[i+1], S[i])) => i \in Q
\* around a peak the values fall on both sides before they rise
IsTop == OneD => \A i \in Q :
    /\ \E a \in 1..(i-1) : Lt(S[a], S[i]) /\ \A b \in (a+1)..i : NEq(S[b], S[i])
    /\ \E a \in (i+1)..Len(S) : Lt(S[a], S[i]) /\ \A b \in i..(a-1) : NEq(S[b], S[i])
OnePerPlateau == OneD => \A i, j \in Q : i < j => \E b \in i..j : Lt(S[b], S[i])
\* peaks stay where they are under increasing affine maps
Affine == LET T == Vec(Len(S), LAMBDA i : NAdd(NMul(3, S[i]), -2)) IN DefaultPeaks(T, Sh) = Q
\* plateaus of odd length are symmetric
MirrorCount == OneD => Cardinality(Peaks1(Reverse(S))) = Cardinality(Q)
MaximaArePeaks == ~OneD => \A q \in 1..Len(S) : (\A p \in 1..Len(S) : Le(S[p], S[q])) => q \in Q
TransposeLaw == ~OneD =>
    LET T == Vec(Len(S), LAMBDA q : LET co == GCoord(<<Sh[2], Sh[1]>>, q) IN S[GPos(Sh, <<co[2], co[1]>>)])
    IN { GPos(Sh, LET co == GCoord(<<Sh[2], Sh[1]>>, q) IN <<co[2], co[1]>>) : q \in Peaks2(T, <<Sh[2], Sh[1]>>) } = Q
\* there is a choice of k highest peaks exactly when there are k peaks, and it contains every peak higher than the rest
Selection == \A k \in 1..3 :
    LET C == { P \in SUBSET Q : Highest(P, Q, S, k) } IN
    /\ (C # {}) <=> Cardinality(Q) >= k
    /\ \A P \in C : \A q \in Q : (Cardinality({ p \in Q : Le(S[q], S[p]) }) <= k) => q \in P
=============================================================================
