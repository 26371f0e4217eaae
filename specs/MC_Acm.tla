------------------------------- MODULE MC_Acm -------------------------------
(* P13: every coarray of a small grid with every unit covariance (direct     *)
(* augmentation is linear), Hermitian, asymmetric and ideal covariances.     *)
EXTENDS MC
CONSTANTS Ap, L, W      \* apertures; sequences of length L over 0..W (elements may coincide)
Sorted(S) == SetToSortSeq(S, <)
Places == { Sorted(S \cup {0}) : S \in SUBSET (1..Ap) } \cup { Reverse(Sorted({ x - 1 : x \in S \cup {1} })) : S \in SUBSET (0..(Ap - 1)) } \cup [1..L -> 0..W]
Cm(n, F(_, _)) == CMatTok(n, n, [p \in 1..n |-> RowOf([q \in 1..n |-> F(p, q)])])
Herm0(n) == Cm(n, LAMBDA p, q : Int2Str(p * q + 2 * (p + q)) \o "," \o Int2Str((p - q) * (p + q)))
Asym(n)  == Cm(n, LAMBDA p, q : Int2Str(p * p + 3 * q) \o "," \o Int2Str(p - 2 * q + p * q))
Eij(n, i, j, z) == Cm(n, LAMBDA p, q : IF p = i /\ q = j THEN z ELSE "0")
Setup(x) == << [op |-> "gridarr", idx |-> IntCol(x), d0 |-> NumTok("0.5"), name |-> "g", out |-> "a"], [op |-> "mkacm", a |-> "a", out |-> "b"] >>
Aug(R, m) == [op |-> "acm", b |-> "b", R |-> R, method |-> m]
Tail0 == << [op |-> "acmview", b |-> "b"], [op |-> "vula", b |-> "b", name |-> "v", out |-> "v"], [op |-> "aview", a |-> "a"] >>
Script(x) ==
    LET n == Len(x) IN
    Setup(x) \o << [op |-> "val", out |-> "R", v |-> Asym(n)], [op |-> "val", out |-> "H", v |-> Herm0(n)],
       Aug(Ref("R"), "da") @@ [out |-> "d"], Aug(Ref("R"), "ss") @@ [out |-> "s"], [op |-> "poke", x |-> "d"], Aug(Ref("H"), "ss") @@ [call |-> TRUE], Aug(Ref("R"), "da"), Aug(Ref("H"), "zz"),
       [op |-> "ff1", v |-> VecTok(2, "-20 35"), unit |-> "deg", out |-> "p"],
       [op |-> "idealcov", a |-> "a", s |-> "p", wl |-> NumTok("1"), p |-> VecTok(2, "2 0.5"), sg |-> NumTok("0.25"), out |-> "I"],
       Aug(Ref("I"), "da"), Aug(Ref("I"), "ss") >> \o Tail0
ScriptU(x, i, j) == Setup(x) \o << [op |-> "val", out |-> "R", v |-> Eij(Len(x), i, j, "3")], [op |-> "val", out |-> "H", v |-> Eij(Len(x), i, j, "0,2")],
                     Aug(Ref("R"), "da"), Aug(Ref("H"), "da"), Aug(Ref("R"), "ss"), Aug(Ref("H"), "ss") >>
Init == \/ \E x \in Places : CaseInit(Script(x))
        \/ \E x \in Places : Len(x) <= 4 /\ \E i, j \in 1..Len(x) : CaseInit(ScriptU(x, i, j))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

X == IntIdx(heap["a"])
n == Len(X)
mv == CentralMv(X)
Same(A, B) == MatClose(A, B, TinyTol)
R0 == AsMat(heap["R"])
Hm == MatAdd(R0, Herm(R0))
Toeplitz == LET Y == AugDA(R0, X) IN \A p, q \in 1..(mv - 1) : NEq(Y[p][q], Y[p+1][q+1])
Linear == LET Y == AsMat(Asym(n)) IN Same(AugDA(MatAdd(R0, MatScale("0,2", Y)), X), MatAdd(AugDA(R0, X), MatScale("0,2", AugDA(Y, X))))
HermitianKept == IsHermitian(AugDA(Hm, X), TinyTol) /\ IsHermitian(AugSS(Hm, X), TinyTol)
\* the two methods are related: smoothing the virtual snapshots squares the Toeplitz matrix
Square == LET Y == AugDA(Hm, X) IN Same(AugSS(Hm, X), MatScale(NDiv(1, mv), MatMul(Y, Y)))
\* averaging with the selection matrix of P03 is the same thing
Selects == Same(<<Virtual(R0, X)>>, << MatVec(SelMat(X, FALSE), VecOf(R0)) >>)
\* a full array without repetitions: averaging the diagonals, and Toeplitz covariances are fixed
Full == (X = [i \in 1..n |-> i - 1]) => mv = n /\ LET Y == AugDA(R0, X) IN Same(AugDA(Y, X), Y)
\* positions do not matter, only their differences; mirrored arrays conjugate
ShiftLaw == Same(AugDA(R0, [i \in 1..n |-> X[i] + 5]), AugDA(R0, X))
MirrorLaw == Same(AugDA(R0, [i \in 1..n |-> -X[i]]), Trans(AugDA(R0, X)))
VirtualLaw == Has(heap, "v") => Size(heap["v"]) = mv /\ IntIdx(heap["v"]) = [i \in 1..mv |-> i - 1]
=============================================================================
