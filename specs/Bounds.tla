------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* Performance bounds from first principles: Fisher information matrices of*)
(* the three models, and the first-order error analysis of MUSIC and of    *)
(* coarray MUSIC under Wishart fluctuations of the sample covariance.      *)
(* Module MC_Bounds checks that these agree with the published closed      *)
(* forms and with the known order of the bounds.                           *)
(***************************************************************************)
EXTENDS Data

Outer2(u, v) == Mat(Len(u), Len(v), LAMBDA i, j : NMul(u[i], Conj(v[j])))      \* u v^H
Model(A, P, sg) == MatAdd(MatMul(A, MatMul(P, Herm(A))), MatScale(sg, Ident(Rows(A))))

\* ---- stochastic models: FIM_ij = tr(R^-1 R_i R^-1 R_j) ---------------------------
FimGauss(R, dR) ==
    LET Ri == Inv(R)
        W == Vec(Len(dR), LAMBDA i : MatMul(Ri, dR[i]))
        Wt == Vec(Len(dR), LAMBDA i : Trans(W[i]))
        n == Len(dR)
        Tr(i, j) == Re(NSum([q \in 1..Rows(R) |-> DotU(W[i][q], Wt[j][q])]))
        U == Mat(n, n, LAMBDA i, j : IF i <= j THEN Tr(i, j) ELSE Tok("0"))
    IN Mat(n, n, LAMBDA i, j : IF i <= j THEN U[i][j] ELSE U[j][i])
\* derivative with respect to the location of source i
dRLoc(A, D, P, i) == LET v == Outer2(Col(D, i), MatVec(A, [j \in 1..Cols(A) |-> Conj(P[i][j])]))  \* d_i (A P e_i)^H
                     IN MatAdd(v, Herm(v))
Unit1(k, i, j, x) == Mat(k, k, LAMBDA a, b : IF a = i /\ b = j THEN x ELSE IF a = j /\ b = i THEN Conj(x) ELSE Tok("0"))
PairSeq(k) == SetToSortSeq({ p \in (1..k) \X (1..k) : p[1] <= p[2] }, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
\* Is a positive (semi)definite matrix invertible with room to spare?  diag(F) diag(F^-1) is one over the
\* share of each column that the other columns leave unexplained.
WellCond(F) == /\ \A i \in 1..Len(F) : Lt(0, Re(F[i][i]))
               /\ LET C == Inv(F) IN C # <<>> /\ \A i \in 1..Len(F) : Lt(Re(NMul(F[i][i], C[i][i])), Tok("1e7"))
\* real parameters of a Hermitian matrix
dRCov(A, k) ==
    LET ps == PairSeq(k)
        re == [q \in 1..Len(ps) |-> Unit1(k, ps[q][1], ps[q][2], Tok("1"))]
        off == SelectSeq(ps, LAMBDA p : p[1] < p[2])
        im == [q \in 1..Len(off) |-> Unit1(k, off[q][1], off[q][2], Tok("0,1"))]
        all == re \o im
    IN [q \in 1..Len(all) |-> MatMul(A, MatMul(all[q], Herm(A)))]
\* the locations are identifiable; otherwise the bounds do not exist and nothing is promised
PosedFim(F, k) == WellCond(F)
PosedNull(A, D) == /\ WellCond(MatMul(Herm(A), A))
                   /\ LET be == MatMul(Complement(Projector(A)), D)
                      IN \A i \in 1..Cols(A) : Lt(NMul(Tok("1e-7"), Norm2(Col(D, i))), Norm2(Col(be, i)))
Block(F, k) == LET C == Inv(F) IN [i \in 1..k |-> SubSeq(C[i], 1, k)]
FimSto(A, D, P, sg) ==
    LET k == Cols(A)  R == Model(A, P, sg)
    IN FimGauss(R, [i \in 1..k |-> dRLoc(A, D, P, i)] \o dRCov(A, k) \o << Ident(Rows(A)) >>)
FimStoUc(A, D, p, sg) ==
    LET k == Cols(A)  P == Diag(p)  R == Model(A, P, sg)
    IN FimGauss(R, [i \in 1..k |-> dRLoc(A, D, P, i)] \o [i \in 1..k |-> Outer2(Col(A, i), Col(A, i))] \o << Ident(Rows(A)) >>)

\* ---- deterministic model with waveforms X (k x T): FIM = 2/sg Re(J^H J), per snapshot ---
\* columns of J: derivative of vec(A X) by the locations, by Re X and by Im X (the noise variance decouples)
JacDet(A, D, X) ==
    LET k == Cols(A)  m == Rows(A)  T == Cols(X)
        loc == [i \in 1..k |-> [q \in 1..(m*T) |-> NMul(D[((q-1) % m) + 1][i], X[i][((q-1) \div m) + 1])]]
        wave(z) == [q \in 1..(k*T) |-> LET i == ((q-1) % k) + 1  t == ((q-1) \div k) + 1 IN
                       [w \in 1..(m*T) |-> IF ((w-1) \div m) + 1 = t THEN NMul(z, A[((w-1) % m) + 1][i]) ELSE Tok("0")]]
    IN loc \o wave(Tok("1")) \o wave(Tok("0,1"))
FimDet(A, D, X, sg) ==
    LET Jt == JacDet(A, D, X)                       \* rows are the columns of J
    IN MatScale(NDiv(2, NMul(sg, Cols(X))), MatRe(MatMul(MatConj(Jt), Trans(Jt))))      \* per snapshot

\* ---- first-order errors:  error_k = - Re tr(W_k^H dR), dR Wishart with covariance R, per snapshot ----
\* covariance of Re x_k, Re x_l with E dR_ij conj(dR_ab) = R_ia R_bj
CovLinear(W, R) ==
    LET n == Len(W)
        RW == Vec(n, LAMBDA i : MatMul(R, MatMul(W[i], R)))
        RWH == Vec(n, LAMBDA i : MatMul(R, MatMul(Herm(W[i]), R)))
        TrH(X, Y) == NSum([q \in 1..Rows(X) |-> Dot(X[q], Y[q])])          \* tr(X^H Y)
    IN Mat(n, n, LAMBDA i, j : NMul(Half, Re(NAdd(TrH(W[i], RW[j]), TrH(W[i], RWH[j])))))
\* linearised error of a null-spectrum estimator: W = beta alpha^H / (beta^H beta)
Alpha(A, P) == MatMul(A, MatMul(Inv(MatMul(Herm(A), A)), Inv(P)))     \* column k: alpha_k
BetaM(A, D) == MatMul(Complement(Projector(A)), D)
MusicCov(A, D, P, sg) ==
    LET al == Alpha(A, P)  be == BetaM(A, D)
    IN CovLinear([i \in 1..Cols(A) |-> MatScale(NDiv(1, Norm2(Col(be, i))), Outer2(Col(be, i), Col(al, i)))], Model(A, P, sg))
\* the coarray: error of the augmented covariance at (a, b) is the mean error of the entries of R at difference a - b
CoarrayCov(A, Av, Dv, p, sg, idx) ==
    LET al == Alpha(Av, Diag(p))  be == BetaM(Av, Dv)  mv == Rows(Av)  m == Rows(A)
        Sum(i) == [d \in (1-mv)..(mv-1) |->
                     NSum([b \in 1..(mv - IMax(d, -d)) |-> LET bb == IF d >= 0 THEN b ELSE b - d IN NMul(be[bb + d][i], Conj(al[bb][i]))])]
        W(i) == LET s == TLCEval(Sum(i))  c == NDiv(1, Norm2(Col(be, i)))
                IN Mat(m, m, LAMBDA r, q : LET d == idx[r] - idx[q] IN
                       IF d \in DOMAIN s THEN NDiv(NMul(c, s[d]), Weight(idx, d)) ELSE Tok("0"))
    IN CovLinear([i \in 1..Cols(A) |-> W(i)], Model(A, Diag(p), sg))

\* ---- closed forms in the literature ------------------------------------------------
StoClosed(A, D, P, sg) ==
    LET H == MatMul(Herm(D), MatMul(Complement(Projector(A)), D))
        X == MatMul(P, MatMul(Herm(A), MatMul(Inv(Model(A, P, sg)), MatMul(A, P))))
    IN MatScale(NMul(sg, Half), Inv(MatRe(Hadamard(H, Trans(X)))))
DetClosed(A, D, P, sg) ==
    LET H == MatMul(Herm(D), MatMul(Complement(Projector(A)), D))
    IN MatScale(NMul(sg, Half), Inv(MatRe(Hadamard(H, Trans(P)))))
MusicClosed(A, D, P, sg) ==
    LET H == MatMul(Herm(D), MatMul(Complement(Projector(A)), D))  Pi1 == Inv(P)
        B == MatAdd(Pi1, MatScale(sg, MatMul(Pi1, MatMul(Inv(MatMul(Herm(A), A)), Pi1))))
    IN Mat(Cols(A), Cols(A), LAMBDA i, j : NMul(NMul(sg, Half), NDiv(Re(NMul(H[i][j], B[j][i])), NMul(Re(H[i][i]), Re(H[j][j])))))

\* ---- judgements ----------------------------------------------------------------------
\* source powers as given by the caller: number, list or vector, or matrix; <<>> when they do not fit
PowMat(x, k) ==
    IF IsNumV(x) THEN MatScale(AsNum(x), Ident(k))
    ELSE IF x.t = "list" THEN (IF Len(x.v) = k THEN Diag([i \in 1..k |-> AsNum(x.v[i])]) ELSE <<>>)
    ELSE IF x.sh = <<k>> THEN Diag(AsVec(x))
    ELSE IF x.sh = <<k, k>> THEN AsMat(x)
    ELSE <<>>
Modes == {"full", "diag", "mean_diag"}
BoundTol == Tok("1e-6")
ReducedOk(r, C, mode) ==
    CASE mode = "full" -> IsArrSh(r, Shape(C)) /\ r.dt = "f" /\ MatCloseRel(AsMat(r), C, BoundTol)
                          /\ (\A i \in 1..Len(C) : Lt(0, AsMat(r)[i][i]) /\ CloseTo(AsMat(r)[i][i], C[i][i], 0, Tok("1e-5")))
      [] mode = "diag" -> IsArrSh(r, <<Len(C)>>) /\ VecCloseAR(AsVec(r), DiagOf(C), 0, Tok("1e-5"))
      [] mode = "mean_diag" -> IsNumV(r) /\ CloseTo(AsNum(r), NDiv(Trace(C), Len(C)), 0, Tok("1e-5"))
DiagMat(P) == Diag(DiagOf(P))
JudgeBound(H, c, r) ==
    LET a == H[c.a]  s == H[c.s]  wl == AsNum(c.wl)  sg == AsNum(c.sg)  n == Opt(c, "n", 1)
        mode == Opt(c, "mode", "full")  which == Opt(c, "which", "all")
        k == NSrc(s)
        P == IF Has(c, "p") THEN PowMat(Val(H, c.p), k) ELSE <<0>>
        co == c.f = "comusic"
        Bad == \/ s.k # "ff1"
               \/ mode \notin Modes
               \/ P = <<>>
               \/ which \notin WhichSet
               \/ c.f = "music" /\ k >= Size(a)
               \/ co /\ (a.pert # <<>> \/ ~IsCoarrayArray(a))
               \/ c.f = "det" /\ Has(c, "p") /\ (IF IsArr(Val(H, c.p)) THEN Len(Val(H, c.p).sh) # 2 ELSE TRUE)
    IN IF Bad THEN Rejected(r, "ValueError")
       ELSE IF co /\ k >= CentralMv(IntIdx(a)) THEN Rejected(r, "ValueError")
       ELSE IF ~ElPlain(a.el) THEN (IF co THEN [v |-> "", o |-> r] ELSE Rejected(r, ""))
       ELSE IF c.f = "music" /\ ~WellCond(P) THEN [v |-> "", o |-> r]       \* MUSIC has no such theory for coherent sources
       ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE LET A == Steer(a, s, wl, which)  D == DSteer(a, s, wl, which)
                Judge(C) == [v |-> Chk(c.f \o "-" \o mode, ReducedOk(r, MatScale(NDiv(1, n), C), mode), ""), o |-> r]
                Fim(F) == IF PosedFim(F, k) THEN Judge(Block(F, k)) ELSE [v |-> "", o |-> r]
            IN CASE c.f = "sto" -> Fim(FimSto(A, D, P, sg))
                 [] c.f = "stouc" -> Fim(FimStoUc(A, D, DiagOf(P), sg))
                 [] c.f = "det" /\ Has(c, "X") -> Fim(FimDet(A, D, AsMat(Val(H, c.X)), sg))
                 [] c.f = "det" -> IF PosedNull(A, D) THEN Judge(DetClosed(A, D, P, sg)) ELSE [v |-> "", o |-> r]
                 [] c.f = "music" -> IF PosedNull(A, D) THEN Judge(MusicCov(A, D, P, sg)) ELSE [v |-> "", o |-> r]
                 [] c.f = "comusic" ->
                      LET v == VirtualUla(a, "")  Av == Steer(v, s, wl, "none")  Dv == DSteer(v, s, wl, "none")
                      IN IF PosedNull(Av, Dv) THEN Judge(CoarrayCov(A, Av, Dv, DiagOf(P), sg, IntIdx(a))) ELSE [v |-> "", o |-> r]
BoundOps == {"bound"}
=============================================================================
