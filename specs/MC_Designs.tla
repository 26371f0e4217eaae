----------------------------- MODULE MC_Designs -----------------------------
(* P01: every array design up to a size, and the laws their definitions imply. *)
EXTENDS MC, Coarray
CONSTANTS N,      \* sizes of uniform arrays
          K,      \* sizes of the parts of nested, co-prime and rectangular arrays
          W       \* grid indices of free-form arrays, in -W..W
D0s == { NumTok("0.5"), NumTok("1.25") }
Cases ==
    { [op |-> "ula", n |-> n, d0 |-> d, out |-> "a"] : n \in 1..N, d \in D0s }
    \cup { [op |-> "nested", n1 |-> i, n2 |-> j, d0 |-> d, out |-> "a"] : i \in 1..K, j \in 1..K, d \in D0s }
    \cup { [op |-> "coprime", m |-> i, n |-> j, mode |-> md, d0 |-> NumTok("0.5"), out |-> "a"] : i \in 1..K, j \in 1..K, md \in {"m", "2m", "M", "2M"} }
    \cup { [op |-> "coprime", m |-> i, n |-> j, d0 |-> NumTok("0.75"), out |-> "a"] : i \in 1..K, j \in 1..K }
    \cup { [op |-> "mrla", n |-> i, d0 |-> d, out |-> "a"] : i \in -1..22, d \in D0s }
    \cup { [op |-> "ura", m |-> i, n |-> j, d0 |-> d, out |-> "a"] : i \in 1..K, j \in 1..K, d \in D0s \cup { VecTok(2, "0.5 2"), VecTok(1, "0.5"), VecTok(3, "1 1 1") } }
    \cup { [op |-> "uca", n |-> n, r |-> d, out |-> "a"] : n \in 1..N, d \in D0s }
    \cup { [op |-> "gridarr", idx |-> IntCol(<<x, y>>), d0 |-> NumTok("0.5"), name |-> "g", out |-> "a"] : x \in -W..W, y \in -W..W }
    \cup { [op |-> "gridarr", idx |-> IntCol(<<x, y>>), bases |-> MatTok(1, d, << RowOf([i \in 1..d |-> Int2Str(i - 2)]) >>), name |-> "g", out |-> "a"] : x \in -W..W, y \in -W..W, d \in 1..4 }
Init == \E c \in Cases : CaseInit(<< c >> \o (IF Rejects(NoHeap, c) THEN <<>> ELSE << [op |-> "aview", a |-> "a"] >>))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

C == hist[1]
Made == "a" \in DOMAIN heap /\ heap["a"].t = "array"
A == heap["a"]
X == IntIdx(A)
GridIs1D == Made /\ IsCoarrayArray(A)
Distinct0 == GridIs1D /\ Cardinality(Range(X)) = Size(A)
SizeLaw ==
    Made => Size(A) = CASE C.op \in {"ula", "uca"} -> C.n [] C.op = "nested" -> C.n1 + C.n2
                        [] C.op = "coprime" -> IMax(C.m, C.n) + (IF Opt(C, "mode", "2m") \in {"2m", "2M"} THEN 2 ELSE 1) * IMin(C.m, C.n) - 1
                        [] C.op = "ura" -> C.m * C.n [] C.op = "gridarr" -> 2
\* the first element is the reference, and only uniform arrays may have all elements evenly spaced
FromOrigin == (Made /\ C.op \in {"ula", "nested", "coprime", "ura"}) => \A j \in 1..Dim(A) : NEq(A.loc[1][j], 0)
NoTwins == (Made /\ C.op \in {"ula", "nested", "coprime"}) => Cardinality(Range(X)) = Size(A)
\* a nested array has a hole-free coarray of 2 n2 (n1 + 1) - 1 differences
NestedLaw == (Made /\ C.op = "nested") => DiffSet(X) = -(C.n2 * (C.n1 + 1) - 1)..(C.n2 * (C.n1 + 1) - 1)
\* co-prime arrays: 0..mn+m-1 (2m) are differences; every product difference occurs
CoprimeLaw ==
    (Made /\ C.op = "coprime" /\ Opt(C, "mode", "2m") \in {"2m", "2M"}) =>
        LET m == IMin(C.m, C.n)  n == IMax(C.m, C.n) IN \A d \in 0..(m * n + m - 1) : d \in DiffSet(X)
CoprimeRejected == C.op = "coprime" => (Made <=> GcdOf(IMax(C.m, C.n), IMin(C.m, C.n)) = 1)
\* circular arrays: constant radius, equal chords
UcaLaw == (Made /\ C.op = "uca") =>
    LET chord(i) == Dist(A.loc[i], A.loc[(i % C.n) + 1]) IN
    /\ \A i \in 1..C.n : CloseTo(Norm(A.loc[i]), AsNum(C.r), 0, TinyTol)
    /\ \A i \in 1..C.n : CloseTo(chord(i), chord(1), TinyTol, TinyTol)
UraLaw == (Made /\ C.op = "ura") =>
    \A i \in 1..C.m, j \in 1..C.n : VecClose(A.loc[(i - 1) * C.n + j], << NMul(i - 1, D0Vec(C.d0, 2)[1]), NMul(j - 1, D0Vec(C.d0, 2)[2]) >>, TinyTol)
\* the grid spacing is the length of the basis vectors
SpacingLaw == (Made /\ IsGrid(A)) => \A i \in 1..Len(A.att.d0) : CloseTo(Norm(A.att.bases[i]), A.att.d0[i], 0, TinyTol)
\* rejected: more than three dimensions, spacings that do not fit, table sizes outside 1..20
Rejections ==
    /\ C.op = "gridarr" => (Made <=> (Has(C, "bases") => C.bases.sh[2] <= 3))
    /\ C.op = "ura" => (Made <=> ~(C.d0.t = "arr" /\ C.d0.sh # <<2>>))
    /\ C.op = "mrla" => (Rejects(NoHeap, C) <=> (C.n < 1 \/ C.n > 20))
=============================================================================
