------------------------------- MODULE Sparse -------------------------------
(***************************************************************************)
(* Reusable sparse recovery problems and the estimators built on them.     *)
(* A result is judged by a certificate computed from the data and from the *)
(* result alone: the duality gap bounds how far it is from the optimum, so *)
(* no solver is part of the specification.  A problem object has no state. *)
(*  problem   [t |-> "prob", k |-> "l1" | "l21", m, n, q, form, nn, cx]    *)
(*  estimator [t |-> "spe", k |-> "scm" | "gse", a, wl, g, finder, known,  *)
(*             form, q]                                                    *)
(***************************************************************************)
EXTENDS Likelihood

L1(x)     == NSum([i \in 1..Len(x) |-> Abs(x[i])])
MaxV(v)   == NMaxSeq(<<Tok("0")>> \o v)
TMatVec(A, v) == MatVec(Trans(A), v)
Pos(x)    == NMax(x, Tok("0"))
\* largest entry of A^T r that the constraint of the dual problem counts
DualNorm(A, r, nn) == LET g == TMatVec(A, r) IN MaxV([i \in 1..Len(g) |-> IF nn THEN g[i] ELSE Abs(g[i])])
Resid(A, b, x) == VSub(b, MatVec(A, x))

\* ---- duality gaps ----------------------------------------------------------------
\* min 1/2 |Ax - b|^2 + l |x|_1:   dual  max 1/2|b|^2 - 1/2|b - u|^2  with  A^T u <= l
GapPenalised(A, b, l, nn, x) ==
    LET r == Resid(A, b, x)
        g == DualNorm(A, r, nn)
        s == IF Le(g, l) THEN Tok("1") ELSE NDiv(l, g)
        primal == NAdd(NMul(Half, Norm2(r)), NMul(l, L1(x)))
        dual == NMul(Half, NSub(Norm2(b), Norm2(VSub(b, VScale(s, r)))))
    IN NSub(primal, dual)
\* min |Ax - b|^2 with |x|_1 <= l:   linearisation at x
GapConstrained1(A, b, l, nn, x) ==
    LET g == VScale(-2, TMatVec(A, Resid(A, b, x)))
        best == NNeg(NMul(l, IF nn THEN MaxV([i \in 1..Len(g) |-> NNeg(g[i])]) ELSE MaxV([i \in 1..Len(g) |-> Abs(g[i])])))
    IN NSub(DotU(g, x), best)
\* min |x|_1 with |Ax - b| <= l:   dual  max b^T u - l |u|  with  A^T u <= 1
GapConstrained2(A, b, l, nn, x) ==
    LET r == Resid(A, b, x)  g == DualNorm(A, r, nn) IN
    IF NEq(g, 0) THEN L1(x)
    ELSE NMin(L1(x), NSub(L1(x), NDiv(NSub(DotU(b, r), NMul(l, Norm(r))), g)))
\* no x comes closer to b than l:  A^T u <= 0 (in fact 0 up to rounding), b^T u > l |u|
Infeasible(A, b, l, nn, u) ==
    /\ Len(u) = Len(b)
    /\ Le(DualNorm(A, u, nn), NMul(Tok("1e-9"), NMul(NAdd(MaxAbs(A), Tok("1e-300")), NMul(Len(b), NMax(Norm(u), NMul(Tok("1e-9"), Norm(b)))))))
    /\ Lt(NMul(l, Norm(u)), DotU(b, u))
\* ---- judgement of a solution x of an l1 problem; loose: solver without stated accuracy ----
SolveTol(c) == IF Opt(c, "solver", "") = "CLARABEL" THEN Tok("1e-4") ELSE Tok("3e-3")
L1Verdict(form, A, b, l, nn, x, sep, tol) ==
    LET nb == Norm(b)  zero == \A i \in 1..Len(x) : NEq(x[i], 0)
        room == NMul(tol, NMax(1, MaxV([i \in 1..Len(x) |-> Abs(x[i])])))
    IN IF form = "constrainedl2" /\ zero /\ Lt(l, nb)
       THEN Chk("zero-although-feasible", sep # <<>> /\ Infeasible(A, b, NMul(l, Tok("0.999")), nn, sep), "")
       ELSE Chk("finite", AllFinV(x),
            Chk("nonnegative", nn => \A i \in 1..Len(x) : Le(NNeg(room), x[i]),
            CASE form = "penalisedl1" \/ form = "penalizedl1" ->
                   IF Lt(NMul(Tok("0.01"), NMul(nb, MaxAbs(A))), l)
                   THEN Chk("optimal", Le(GapPenalised(A, b, l, nn, x), NMul(tol, NMax(NMul(nb, nb), Tok("1e-3")))), "")
                   ELSE Chk("optimal", Le(DualNorm(A, Resid(A, b, x), nn), NAdd(l, NMul(NMul(10, tol), NMul(nb, NMax(1, MaxAbs(A)))))), "")
              [] form = "constrainedl1" ->
                   Chk("feasible", Le(L1(x), NAdd(l, NMul(Len(x), room))),
                   Chk("optimal", Le(GapConstrained1(A, b, l, nn, x), NMul(NMul(10, tol), NMax(NMul(nb, nb), Tok("1e-3")))), ""))
              [] form = "constrainedl2" ->
                   Chk("feasible", Le(Norm(Resid(A, b, x)), NAdd(l, NMul(NMul(10, tol), NMax(nb, 1)))),
                   Chk("optimal", (Lt(NMul(Tok("0.01"), nb), l) /\ Le(NMul(L1(x), MaxAbs(A)), NMul(20, nb))) => \* (well enough conditioned)
                        Le(GapConstrained2(A, b, l, nn, x), NMul(NMul(100, tol), NMax(L1(x), Tok("1e-3")))), ""))))

\* ---- l2,1 ------------------------------------------------------------------------------
RowLens(X) == Vec(Rows(X), LAMBDA i : Norm(X[i]))
\* min 1/2 |AX - B|_F^2 + l sum |X_i|
GapL21(A, B, l, X) ==
    LET R == MatSub(B, MatMul(A, X))
        g == MaxV(RowLens(MatMul(Herm(A), R)))
        s == IF Le(g, l) THEN Tok("1") ELSE NDiv(l, g)
        primal == NAdd(NMul(Half, Frob2(R)), NMul(l, NSum(RowLens(X))))
        dual == NMul(Half, NSub(Frob2(B), Frob2(MatSub(B, MatScale(s, R)))))
    IN NSub(primal, dual)
\* the matrix with the smallest residual among those of the weighted ridge problem given by the row norms w:
\* at the optimum it has these row norms
FromRowLens(A, B, l, w) ==
    LET AW == Mat(Rows(A), Cols(A), LAMBDA i, j : NMul(A[i][j], w[j]))
        G == MatAdd(MatMul(AW, Herm(A)), MatScale(l, Ident(Rows(A))))
    IN MatMul(Herm(AW), MatMul(Inv(G), B))

\* ---- problem objects ----------------------------------------------------------------------
L1Forms == {"penalizedl1", "constrainedl1", "constrainedl2"}
JudgeMkProb(H, c, r) ==
    IF c.k = "l1" /\ Opt(c, "form", "penalizedl1") \notin L1Forms THEN Rejected(r, "ValueError")
    ELSE [v |-> Chk("raised", ~IsExc(r), ""),
          o |-> [t |-> "prob", k |-> c.k, m |-> c.m, n |-> c.n, q |-> Opt(c, "q", 1), form |-> Opt(c, "form", "penalizedl1"),
                 nn |-> Opt(c, "nn", FALSE), cx |-> Opt(c, "cx", FALSE)]]
JudgeSolve(H, c, r) ==
    LET p == H[c.p]  XA == Val(H, c.A)  XB == Val(H, c.b)  l == AsNum(c.l)
        bad == \/ XA.sh # <<p.m, p.n>>
               \/ XB.sh # <<p.m, p.q>>
               \/ Lt(l, 0)
               \/ (XA.dt = "c" \/ XB.dt = "c") /\ ~p.cx
    IN IF bad THEN Rejected(r, "ValueError")
       ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE IF p.k = "l1"
       THEN LET x == r.res
                sep == IF Has(r.wit, "sep") THEN VecOf(AsMat(r.wit.sep)) ELSE <<>>
            IN [v |-> Chk("shape", IsArr(x) /\ x.dt = "f" /\ (x.sh = <<p.n, 1>> \/ (x.sh = <<p.n>> /\ \A i \in 1..p.n : NEq(AsVec(x)[i], 0))),
                      L1Verdict(p.form, AsMat(XA), VecOf(AsMat(XB)), l, p.nn, AsFlat(x), sep, SolveTol(c))), o |-> x]
       ELSE LET x == r.res IN
            [v |-> Chk("shape", IsArr(x) /\ x.sh = <<p.n, p.q>> /\ (x.dt = "c" => p.cx),
                   LET A == AsMat(XA)  B == AsMat(XB)  X == AsMat(x) IN
                   Chk("finite", AllFin(X),
                   IF Lt(NMul(Tok("0.01"), NMul(Sqrt(Frob2(B)), MaxAbs(A))), l)
                   THEN Chk("optimal", Le(GapL21(A, B, l, X), NMul(SolveTol(c), NMax(Frob2(B), Tok("1e-3")))), "")
                   ELSE Chk("optimal", Le(MaxV(RowLens(MatMul(Herm(A), MatSub(B, MatMul(A, X))))),
                             NAdd(l, NMul(NMul(10, SolveTol(c)), NMul(Sqrt(Frob2(B)), NMax(1, MaxAbs(A)))))), ""))), o |-> x]

\* ---- estimators ------------------------------------------------------------------------------
JudgeMkSparse(H, c, r) ==
    IF c.k = "scm" /\ Opt(c, "form", "penalizedl1") \notin L1Forms THEN Rejected(r, "ValueError")
    ELSE [v |-> Chk("raised", ~IsExc(r), ""),
          o |-> [t |-> "spe", k |-> c.k, a |-> H[c.a], wl |-> AsNum(c.wl), g |-> H[c.g], finder |-> Opt(c, "finder", "default"),
                 known |-> Opt(c, "known", FALSE), form |-> Opt(c, "form", "penalizedl1"), q |-> Opt(c, "q", 1)]]
\* real and imaginary parts of the vectorised covariance model
RealRows(M) == TLCEval(MatRe(M) \o MatIm(M))
PowerAtoms(A) == RealRows(KhatriRao(MatConj(A), A))
RealVec(R)  == LET v == VecOf(R) IN TLCEval([i \in 1..Len(v) |-> Re(v[i])] \o [i \in 1..Len(v) |-> Im(v[i])])
NoiseAtom(m) == RealVec(Ident(m))
\* the best noise variance to go with powers p, which the estimator does not report
BestNoise(form, m, l, p, res) ==
    LET e == NoiseAtom(m)  er == DotU(e, res)  sp == NSum(p) IN
    CASE form = "penalizedl1"   -> Pos(NDiv(NSub(er, l), m))
      [] form = "constrainedl1" -> NMax(Tok("0"), NMin(NDiv(er, m), NSub(l, sp)))
      [] form = "constrainedl2" ->
           IF Le(Norm(res), l) THEN Tok("0")
           ELSE LET d == NSub(NMul(er, er), NMul(m, NSub(Norm2(res), NMul(l, l)))) IN Pos(NDiv(NSub(er, Sqrt(Pos(d))), m))
ScmVerdict(e, R, l, sig, p, sep, tol) ==
    LET A == Steer(e.a, GSources(e.g), e.wl, "known")  m == Rows(A)
        Phi == PowerAtoms(A)
        b == IF e.known THEN RealVec(MatSub(R, MatScale(sig, Ident(m)))) ELSE RealVec(R)
    IN IF e.known THEN L1Verdict(e.form, Phi, b, l, TRUE, p, sep, tol)
       ELSE LET s == BestNoise(e.form, m, l, p, Resid(Phi, b, p))
                Phi2 == HStack(Phi, ColVec(NoiseAtom(m)))
            IN L1Verdict(e.form, Phi2, b, l, TRUE, Append(p, s), sep, tol)
GseVerdict(e, Y, l, w, tol) ==
    LET A == Steer(e.a, GSources(e.g), e.wl, "known")
        X == FromRowLens(A, Y, l, w)  X2 == RowLens(X)
        scale == NMax(MaxV(w), NMul(Tok("1e-3"), Sqrt(Frob2(Y))))
    IN Chk("nonnegative", \A i \in 1..Len(w) : Le(0, w[i]),
       IF ~Lt(0, l) THEN ""
       ELSE Chk("optimal", Le(GapL21(A, Y, l, X), NMul(NMul(10, tol), NMax(Frob2(Y), Tok("1e-3")))),
            Chk("row-norms", \A i \in 1..Len(w) : CloseTo(w[i], X2[i], NMul(NMul(3, Sqrt(tol)), scale), Tok("0.05")), "")))
\* without the spectrum of the very call, the peaks among the rounding errors of the solver are not known
GridVerdict(e, k, ok, est) ==
    IF ~ok THEN Chk("estimates-none", est.t = "none", "")
    ELSE IF ~SameRes(est, k, e.g, k) THEN "estimates-kind-unit-count"
    ELSE LET pts == GSources(e.g).loc  pos == [i \in 1..k |-> PosOf(pts, ObsLoc(est)[i])] IN
         Chk("estimates-on-grid", \A i \in 1..k : pos[i] > 0, Chk("grid-order", Ascending(pos), ""))
JudgeSpEst(H, c, r) ==
    LET e == H[c.e]  X == Val(H, c.R)  k == c.n  l == AsNum(c.l)  n == Size(e.a)
        bad == \/ Has(c, "refine")
               \/ Len(X.sh) # 2
               \/ IF e.k = "scm" THEN X.sh # <<n, n>> ELSE X.sh # <<n, e.q>>
               \/ e.k = "scm" /\ e.known /\ ~Has(c, "sigma")
               \/ Lt(l, 0)
        want == IF Opt(c, "spec", FALSE) THEN 3 ELSE 2
    IN IF bad THEN Rejected(r, "ValueError")
       ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE LET res == r.res IN
            IF ~(IsTup(res, want) /\ res.v[1].t = "bool") THEN [v |-> "result-tuple", o |-> None]
            ELSE IF ~Opt(r.wit, "kept", TRUE) THEN [v |-> "solver-options-changed", o |-> None]
            ELSE LET ok == res.v[1].v  M == AsMat(X)
                     sp == IF want = 3 /\ IsArr(res.v[3]) THEN res.v[3] ELSE r.wit.sp
                     sig == IF Has(c, "sigma") THEN AsNum(c.sigma) ELSE Tok("0")
                     sep == IF Has(r.wit, "sep") THEN AsVec(r.wit.sep) ELSE <<>>
                     NoSolution == LET A == Steer(e.a, GSources(e.g), e.wl, "known")
                                       b == IF e.known THEN RealVec(MatSub(M, MatScale(sig, Ident(n)))) ELSE RealVec(M)
                                       Phi == IF e.known THEN PowerAtoms(A) ELSE HStack(PowerAtoms(A), ColVec(NoiseAtom(n)))
                                   IN e.k = "scm" /\ e.form = "constrainedl2" /\ Infeasible(Phi, b, NMul(l, Tok("0.999")), TRUE, sep)
                 IN IF want = 3 /\ ok /\ ~IsArr(res.v[3]) THEN [v |-> "spectrum-missing", o |-> None]
                    ELSE IF ~IsArr(sp) \/ (~ok /\ e.form = "constrainedl2" /\ \A i \in 1..Len(AsFlat(sp)) : NEq(AsFlat(sp)[i], 0))
                    THEN [v |-> Chk("resolved-without-solution", ~ok,
                                Chk("estimates-none", res.v[2].t = "none",
                                Chk("no-solution-reported", NoSolution \/ Opt(r.wit, "gaveup", FALSE) \/ (IsArr(sp) /\ Le(Frob2(M), NMul(l, l))), ""))), o |-> res]
                    ELSE IF sp.sh # GShape(e.g) \/ sp.dt # "f" THEN [v |-> "spectrum-shape", o |-> None]
                    ELSE LET S == AsFlat(sp)
                             sv == IF e.k = "scm" THEN ScmVerdict(e, M, l, sig, S, sep, SolveTol(c)) ELSE GseVerdict(e, M, l, S, SolveTol(c))
                         IN [v |-> Chk("resolved-without-solution", ~(ok /\ e.form = "constrainedl2" /\ (\A i \in 1..Len(S) : NEq(S[i], 0)) /\ NoSolution),
                                   IF sv # "" THEN "spectrum-" \o sv ELSE IF want = 3 /\ IsArr(res.v[3]) THEN PeakVerdict(e, S, k, ok, res.v[2])
                                   ELSE GridVerdict(e, k, ok, res.v[2])), o |-> res]
\* snapshots made by the harness
SparseOps == {"mkprob", "solve", "mksparse", "spest", "mkdata"}
SparseJudge(H, c, r) ==
    CASE c.op = "mkprob" -> JudgeMkProb(H, c, r)
      [] c.op = "solve" -> JudgeSolve(H, c, r)
      [] c.op = "mksparse" -> JudgeMkSparse(H, c, r)
      [] c.op = "spest" -> JudgeSpEst(H, c, r)
      [] c.op = "mkdata" -> [v |-> Chk("harness", IsMatV(r), ""), o |-> r]
=============================================================================
