----------------------------- MODULE MC_Smooth -----------------------------
(* P14: smoothing is real-linear, so the unit matrices (times 1 and i)       *)
(* decide it for a size: every unit matrix, every number of subarrays, both  *)
(* kinds; sums of two; and l1-SVD of every small matrix of a few values.     *)
EXTENDS MC
CONSTANTS M,          \* sizes of the covariance matrices
          R, C, V     \* R x C data matrices with entries in -V..V
Entry(z, i, j, n) == [p \in 1..n |-> [q \in 1..n |-> IF p = i /\ q = j THEN z ELSE "0"]]
MatV(X) == CMatTok(Len(X), Len(X[1]), [p \in 1..Len(X) |-> RowOf(X[p])])
EUnits == UNION { { Entry(z, i, j, n) : z \in {"2", "0,3"}, i \in 1..n, j \in 1..n } : n \in 1..M }
\* full matrices without symmetry, and Toeplitz ones
Full(n) == [p \in 1..n |-> [q \in 1..n |-> Int2Str(p * p + 3 * q) \o "," \o Int2Str(p - 2 * q + p * q)]]
Toep(n) == [p \in 1..n |-> [q \in 1..n |-> Int2Str(10 - (p - q) * (p - q)) \o "," \o Int2Str(3 * (p - q))]]
Rs == EUnits \cup { Full(n) : n \in 1..M } \cup { Toep(n) : n \in 1..M }
Sm(x, l, fb) == [op |-> "ssmooth", R |-> Ref(x), l |-> l, fb |-> fb]
Script(X, l, k) ==
    << [op |-> "val", out |-> "R", v |-> MatV(X)], Sm("R", l, FALSE) @@ [out |-> "F"], Sm("R", l, TRUE) @@ [out |-> "B"], [op |-> "poke", x |-> "F"],
       Sm("B", k, k % 2 = 0), Sm("R", l, FALSE), Sm("R", Len(X) + 1, FALSE), Sm("R", 0, TRUE) >>
Data == UNION { [1..p -> [1..q -> (-V)..V]] : p \in 1..R, q \in 1..C }
Script2(Y, k) == << [op |-> "val", out |-> "Y", v |-> CMatTok(Len(Y), Len(Y[1]), [p \in 1..Len(Y) |-> RowOf([q \in 1..Len(Y[1]) |-> Int2Str(Y[p][q])])])],
                    [op |-> "l1svd", y |-> Ref("Y"), k |-> k, out |-> "Z"] >>
Init == \/ \E X \in Rs : \E l \in 1..Len(X) : CaseInit(Script(X, l, IMax(1, (Len(X) - l + 1) \div 2)))
        \/ \E Y \in Data : \E k \in 1..IMin(Len(Y), Len(Y[1])) : CaseInit(Script2(Y, k))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

Is == "R" \in DOMAIN heap
X == AsMat(heap["R"])
N == Len(X)
Same(A, B) == MatClose(A, B, TinyTol)
Identity == Is => Same(Smooth(X, 1), X)
LastIsMean == Is => NEq(NMul(N, Smooth(X, N)[1][1]), Trace(X))
Persymmetric == Is => \A l \in 1..N : Same(FlipConj(SmoothFB(X, l)), SmoothFB(X, l))
Linear == Is => LET Y == AsMat(MatV(Full(N))) IN \A l \in 1..N :
    /\ Same(Smooth(MatAdd(X, MatScale(3, Y)), l), MatAdd(Smooth(X, l), MatScale(3, Smooth(Y, l))))
    /\ Same(SmoothFB(MatAdd(X, MatScale(3, Y)), l), MatAdd(SmoothFB(X, l), MatScale(3, SmoothFB(Y, l))))
HermitianKept == Is => \A l \in 1..N : LET Y == MatAdd(X, Herm(X)) IN IsHermitian(Smooth(Y, l), TinyTol) /\ IsHermitian(SmoothFB(Y, l), TinyTol)
Commute == Is => \A l \in 1..N : \A k \in 1..(N - l + 1) : Same(Smooth(Smooth(X, l), k), Smooth(Smooth(X, k), l))
IsToep(Y) == \A p, q \in 1..(Len(Y) - 1) : NEq(Y[p][q], Y[p+1][q+1])
Stationary == (Is /\ IsToep(AsMat(heap["R"]))) => \A l \in 1..N : Same(Smooth(X, l), [p \in 1..(N-l+1) |-> SubSeq(X[p], 1, N-l+1)])
=============================================================================
