-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* What happens to data before estimation: coarray covariance augmentation,*)
(* spatial smoothing, l1-SVD, source enumeration, signals and snapshots.   *)
(* Abstract objects: [t |-> "acm", a |-> array],                           *)
(*   [t |-> "sig", k |-> kind, dim, C |-> covariance matrix,               *)
(*    amp |-> amplitudes].                                                 *)
(***************************************************************************)
EXTENDS Estimators

\* ---- coarray augmentation ---------------------------------------------------
\* z[d]: average of the entries of R whose elements are d apart
MeanAt(R, idx, d) ==
    LET P == SetToSeq({ p \in Pairs(Len(idx)) : idx[p[1]] - idx[p[2]] = d })
    IN NDiv(NSum([q \in 1..Len(P) |-> R[P[q][1]][P[q][2]]]), Len(P))
\* virtual measurements at differences 1-mv .. mv-1
Virtual(R, idx) == LET mv == CentralMv(idx) IN Vec(2*mv - 1, LAMBDA i : MeanAt(R, idx, i - mv))
AugDA(R, idx) == LET mv == CentralMv(idx)  z == Virtual(R, idx) IN Mat(mv, mv, LAMBDA i, j : z[mv + i - j])
AugSS(R, idx) ==
    LET mv == CentralMv(idx)  z == Virtual(R, idx)
    IN Mat(mv, mv, LAMBDA r, c : NDiv(NSum([i \in 1..mv |-> NMul(z[i + r - 1], Conj(z[i + c - 1]))]), mv))
VirtualUla(a, name) == GridArray(ColIdx(UlaIdx(CentralMv(IntIdx(a)))), <<a.att.d0[1]>>, name, NoAtt)
\* consequences for ideal covariances of the unperturbed array, checked on the observed result
IdealAugOk(a, X, meth, Ra) ==
    IF ~(Has(X, "truth") /\ X.truth.a = a /\ a.pert = <<>> /\ a.el = "iso" /\ NEq(a.att.bases[1][1], a.att.d0[1])
         /\ Cardinality(Range(IntIdx(a))) = Size(a)) THEN TRUE \* co-located elements would share noise
    ELSE LET v == VirtualUla(a, "v")  I == IdealCov(v, X.truth.s, X.truth.wl, X.truth.p, X.truth.sg)
         IN MatClose(Ra, IF meth = "da" THEN I ELSE MatScale(NDiv(1, Size(v)), MatMul(I, Herm(I))), Eps)
JudgeAcm(H, c, r) ==
    LET a == H[c.b].a  X == Val(H, c.R)  meth == Opt(c, "method", "ss")  idx == IntIdx(a) IN
    IF X.sh # <<Size(a), Size(a)>> \/ meth \notin {"ss", "da"} THEN Rejected(r, "ValueError")
    ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
    ELSE LET R == AsMat(X)  Ra == IF meth = "da" THEN AugDA(R, idx) ELSE AugSS(R, idx)
         IN [v |-> Chk("shape", IsArrSh(r, Shape(Ra)) /\ IsInexact(r),
                   Chk("augmented-" \o meth, MatClose(AsMat(r), Ra, Eps),
                   Chk("ideal-" \o meth, IdealAugOk(a, X, meth, AsMat(r)), ""))), o |-> r]
AcmJudge(H, c, r) ==
    CASE c.op = "mkacm" ->
           IF ~IsCoarrayArray(H[c.a]) THEN Rejected(r, "ValueError")
           ELSE [v |-> Chk("raised", ~IsExc(r), ""), o |-> [t |-> "acm", a |-> H[c.a]]]
      [] c.op = "acm" -> JudgeAcm(H, c, r)
      [] c.op = "acmview" ->
           LET a == H[c.b].a IN
           [v |-> Chk("sizes", r = [t |-> "tup", v |-> << IntV(Size(a)), IntV(CentralMv(IntIdx(a))) >>], ""), o |-> None]
      [] c.op = "vula" ->
           LET a == H[c.b].a  v == VirtualUla(a, Opt(c, "name", "Virtual ULA of " \o a.name)) IN
           [v |-> IF IsExc(r) THEN "raised" ELSE ViewArray(v, r), o |-> v]

\* ---- spatial smoothing ------------------------------------------------------------
Smooth(R, l) ==
    LET n == Rows(R) - l + 1 IN Mat(n, n, LAMBDA i, j : NDiv(NSum([q \in 1..l |-> R[i + q - 1][j + q - 1]]), l))
FlipConj(R) == LET n == Rows(R) IN Mat(n, n, LAMBDA i, j : Conj(R[n + 1 - i][n + 1 - j]))
SmoothFB(R, l) == LET S == Smooth(R, l) IN MatScale(Half, MatAdd(S, FlipConj(S)))
JudgeSmooth(H, c, r) ==
    LET X == Val(H, c.R)  fb == Opt(c, "fb", FALSE) IN
    IF c.l < 1 \/ c.l > X.sh[1] THEN Rejected(r, "ValueError")
    ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
    ELSE LET S == IF fb THEN SmoothFB(AsMat(X), c.l) ELSE Smooth(AsMat(X), c.l)
         IN [v |-> Chk("smoothed", IsArrSh(r, Shape(S)) /\ IsInexact(r) /\ LET d == MatDist(AsMat(r), S) IN Ge(d, 0) /\ Le(d, NMul(Tok("1e-13"), MaxAbs(AsMat(X)))), ""), o |-> r]

\* ---- l1-SVD --------------------------------------------------------------------------
\* r: [t |-> "l1svd", y |-> result, l, E |-> eigendecomposition of Y Y^H, U, s, V |-> singular value decomposition of Y]
SvdOk(Y, U, s, V) ==
    LET q == IMin(Rows(Y), Cols(Y)) IN
    /\ Shape(U) = <<Rows(Y), q>> /\ Shape(V) = <<Cols(Y), q>> /\ Len(s) = q
    /\ \A i \in 1..q : Le(0, s[i]) /\ (i < q => Le(s[i+1], s[i]))
    /\ Le(MatDist(MatMul(Herm(U), U), Ident(q)), Tok("1e-11")) /\ Le(MatDist(MatMul(Herm(V), V), Ident(q)), Tok("1e-11"))
    /\ Le(MatDist(MatMul(Mat(Rows(Y), q, LAMBDA i, j : NMul(U[i][j], s[j])), Herm(V)), Y), NMul(Tok("1e-13"), NMul(Rows(Y), s[1])))
\* Yk is (U S)_k up to a unitary mixing of its columns: every left singular vector finds its own length in Yk, the others none
KeepsSingular(Yk, k, U, s) ==
    LET M == MatMul(Herm(U), Yk)  tol == NMul(Tok("2e-12"), s[1])
        apart == k = Len(s) \/ Lt(NMul(s[k+1], Tok("1.001")), s[k]) \/ Le(s[k], NMul(s[1], Tok("1e-13")))
    IN apart => \A i \in 1..Len(s) : Le(Abs(NSub(Norm(Row(M, i)), IF i <= k THEN s[i] ELSE 0)), tol)
JudgeL1Svd(H, c, r) ==
    IF IsExc(r) THEN [v |-> "raised", o |-> None]
    ELSE LET Y == AsMat(Val(H, c.y))  m == Rows(Y)  G == MatMul(Y, Herm(Y))
             E == AsMat(r.E)  l == AsVec(r.l)
             Es == SubCols(E, SignalCols(m, c.k))
             Best == MatMul(Mat(m, c.k, LAMBDA i, j : NMul(Es[i][j], l[m - c.k + j])), Herm(Es))
             gap == c.k = m \/ Lt(NMul(l[m - c.k], Tok("1.001")), l[m - c.k + 1]) \/ Le(l[m - c.k + 1], NMul(l[m], Tok("1e-12")))
         IN [v |-> Chk("bad-witness", EigOk(G, l, E),
                   Chk("shape", IsArrSh(r.y, <<m, c.k>>),
                   LET Yk == AsMat(r.y) IN
                   Chk("best-rank-k", gap => MatCloseRel(MatMul(Yk, Herm(Yk)), Best, Tok("1e-9")),
                   Chk("bad-witness", SvdOk(Y, AsMat(r.U), AsVec(r.s), AsMat(r.V)),
                   Chk("singular-values", KeepsSingular(Yk, c.k, AsMat(r.U), AsVec(r.s)), ""))))), o |-> r.y]

\* ---- source enumeration ------------------------------------------------------------------
\* eigenvalues ascending; sufficient statistic for the m-k smallest
LdStat(l, k, n) ==
    LET d == Len(l) - k  t == SubSeq(l, 1, d)
    IN NMul(NMul(n, d), NSub(Log(NDiv(NSum(t), d)), NDiv(NSum([i \in 1..d |-> Log(t[i])]), d)))
Aic(l, n) == LET m == Len(l) IN Vec(m, LAMBDA i : NAdd(LdStat(l, i-1, n), (i-1) * (2*m - (i-1))))
Mdl(l, n) == LET m == Len(l) IN Vec(m, LAMBDA i : NAdd(LdStat(l, i-1, n), NMul(NMul(Half, (i-1) * (2*m - (i-1)) + 1), Log(n))))
Var(s) == LET mu == NDiv(NSum(s), Len(s)) IN NDiv(NSum([i \in 1..Len(s) |-> NSq(NSub(s[i], mu))]), Len(s))
\* SORTE ratios for k = 1 .. n-3 ("inf" when the remaining gaps are all equal)
Sorte(l) ==
    LET n == Len(l)
        x == [i \in 1..n |-> l[n + 1 - i]]
        gaps == [i \in 1..(n-1) |-> NSub(x[i], x[i+1])]
        sg == Vec(n - 1, LAMBDA k : Var(SubSeq(gaps, k, n - 1)))
        tiny == NSq(NMul(Tok("1e-14"), NMaxSeq([i \in 1..n |-> Abs(x[i])])))
    IN Vec(n - 3, LAMBDA k : IF Le(sg[k], tiny) THEN Tok("inf") ELSE NDiv(IF Le(sg[k+1], tiny) THEN 0 ELSE sg[k+1], sg[k]))
SmallestMinimiser(v) == CHOOSE i \in 1..Len(v) : (\A j \in 1..Len(v) : ~Lt(v[j], v[i])) /\ (\A j \in 1..(i-1) : Lt(v[i], v[j]))
NearMin(v, i) == LET x == NMinSeq(v) IN Le(v[i], NAdd(x, NAdd(Eps, NMul(Eps, Abs(x)))))
\* the answer is the smallest minimiser; values closer than rounding are not told apart
MinimiserOk(v, i) == i \in 1..Len(v) /\ IsFin(v[i]) /\ NearMin(v, i) /\ (\A j \in 1..(i-1) : ~NEq(v[j], v[i]))
Crit(f, l, n) == CASE f = "aic" -> Aic(l, n) [] f = "mdl" -> Mdl(l, n) [] f = "sorte" -> Sorte(l)
\* r: [t |-> "srcnum", k |-> answer, l, E: witnesses for a matrix]
JudgeSrcNum(H, c, r) ==
    LET X == Val(H, c.x)  m == X.sh[1] IN
    IF c.f = "sorte" /\ m < 4 THEN Rejected(r, "ValueError")
    ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
    ELSE LET l == IF Len(X.sh) = 1 THEN AsVec(X) ELSE AsVec(r.l)
             v == Crit(c.f, l, Opt(c, "n", 1))
             off == IF c.f = "sorte" THEN 0 ELSE 1
             allInf == \A i \in 1..Len(v) : ~IsFin(v[i])
         IN [v |-> Chk("bad-witness", Len(X.sh) = 1 \/ EigOk(AsMat(X), l, AsMat(r.E)),
                   Chk("integer", r.k.t = "int",
                   Chk(c.f, IF allInf THEN r.k.v = 1 ELSE MinimiserOk(v, r.k.v + off), ""))), o |-> r.k]

\* ---- signals ----------------------------------------------------------------------------------
\* the covariance matrix a specification stands for, or <<>> when it does not fit
CovOf(x, dim) ==
    IF IsNumV(x) THEN MatScale(AsNum(x), Ident(dim))
    ELSE IF x.sh = <<dim>> THEN Diag(AsVec(x))
    ELSE IF x.sh = <<dim, dim>> THEN AsMat(x)
    ELSE <<>>
AmpOf(x, dim) == IF IsNumV(x) THEN [i \in 1..dim |-> AsNum(x)] ELSE IF SeqProd(x.sh) = dim THEN AsFlat(x) ELSE <<>>
One == IntV(1)
JudgeMkSig(H, c, r) ==
    LET par == IF Has(c, "par") THEN Val(H, c.par) ELSE One
        P == IF c.k = "cn" THEN CovOf(par, c.dim) ELSE IF c.k = "rp" THEN AmpOf(par, c.dim)
             ELSE IF c.k = "randcn" THEN Ident(c.dim) ELSE IF c.k = "fix" THEN AsMat(par) ELSE <<0>>
    IN IF P = <<>> THEN Rejected(r, "ValueError")
       ELSE [v |-> Chk("dim", r.t = "sig" /\ r.dim = IntV(c.dim), ""), o |-> [t |-> "sig", k |-> IF c.k = "randcn" THEN "cn" ELSE c.k, dim |-> c.dim, par |-> P, pos |-> 0]]
\* a generator of the caller that reads the columns of a matrix over and over has a position
EmittedBy(g, n) == LET t == Cols(g.par) IN SubCols(g.par, [i \in 1..n |-> ((g.pos + i - 1) % t) + 1])
Moved(g, n) == [g EXCEPT !.pos = IF g.pos < 0 \/ n < 0 THEN -1 ELSE g.pos + n]
AsRead(g, n, X) == (g.k = "fix" /\ g.pos >= 0) => IsArrSh(X, <<g.dim, n>>) /\ MatClose(AsMat(X), EmittedBy(g, n), 0)
\* independent sources never emit the same phase at the same moment, and no source repeats its phase
WhiteCov(P) == \A i, j \in 1..Len(P) : (i = j /\ NEq(P[i][i], P[1][1]) /\ ~NEq(P[i][i], 0)) \/ (i # j /\ NEq(P[i][j], 0))
PhasesApart(S, par, n) ==
    LET m == IF n < 3 THEN n ELSE 3
        same(a, p, b, q) == CloseTo(NMul(a, q), NMul(b, p), 0, Tok("1e-13"))
    IN \A i \in 1..Len(par) : NEq(par[i], 0) \/ \A t \in 1..m :
          /\ \A j \in 1..(i-1) : NEq(par[j], 0) \/ ~same(S[i][t], par[i], S[j][t], par[j])
          /\ \A u \in 1..(t-1) : ~same(S[i][t], par[i], S[i][u], par[i])
\* one emission: shape, amplitudes
EmissionOk(g, x, n) ==
    Chk("shape", IsArrSh(x, <<g.dim, n>>),
    Chk("complex", g.k \in {"rec", "fix"} \/ x.dt = "c",
    Chk("amplitudes", g.k = "rp" => LET S == AsMat(x) IN \A i \in 1..g.dim : \A t \in 1..n : CloseTo(Abs(S[i][t]), Abs(g.par[i]), 0, Tok("1e-13")),
    Chk("independent", (g.k = "rp" /\ g.dim > 0) => PhasesApart(AsMat(x), g.par, n),
    Chk("independent", (g.k = "cn" /\ g.dim > 0 /\ WhiteCov(g.par)) => PhasesApart(AsMat(x), [i \in 1..g.dim |-> 1], n), "")))))
JudgeEmit(H, c, r) == [v |-> IF IsExc(r) THEN "raised" ELSE Chk("emission", AsRead(H[c.g], c.n, r), EmissionOk(H[c.g], r, c.n)),
                       o |-> r, upd |-> c.g :> Moved(H[c.g], c.n)]
(* Sample moments of a long emission of n snapshots, computed by the        *)
(* harness from the emitted matrix:                                         *)
(*   mean  E s           cov  E s s^H        pcov  E s s^T                  *)
(*   lag   E s(t+1) s(t)^H   lagp E s(t+1) s(t)^T                           *)
(*   rep   E s(t) s2(t)^H with the next emission s2                         *)
(*   m4    E |s_i|^4     (cn)                                               *)
(*   ph2, ph3  E (s_i/|s_i|)^2, ^3   ph12 E s_i^2 s_j^* (independence)      *)
(* Bounds are at least six standard deviations.                             *)
Within(X, Y, B) == Shape(X) = Shape(Y) /\ \A i \in 1..Len(X) : \A j \in 1..Len(X[i]) : Le(Abs(NSub(X[i][j], Y[i][j])), B[i][j])
JudgeEmitStat(H, c, r) ==
    LET g == H[c.g]  d == g.dim  z == ZeroMat(d, d)
        C == IF g.k = "cn" THEN g.par ELSE Diag(Vec(d, LAMBDA i : Abs2(g.par[i])))
        s == Vec(d, LAMBDA i : Sqrt(Re(C[i][i])))
        q == NDiv(7, Sqrt(c.n))
        B == Mat(d, d, LAMBDA i, j : NAdd(NMul(q, NMul(s[i], s[j])), Tok("1e-9")))
        Bm == ColVec(Vec(d, LAMBDA i : NAdd(NMul(q, s[i]), Tok("1e-9"))))
        U == Mat(d, 1, LAMBDA i, j : NMul(2, q))
    IN IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE [v |-> Chk("emission", r.sh = <<d, c.n>>,
                   Chk("mean", Within(ColVec(AsVec(r.mean)), ZeroMat(d, 1), Bm),
                   Chk("covariance", Within(AsMat(r.cov), C, B),
                   Chk("circular", Within(AsMat(r.pcov), z, MatScale(2, B)),
                   Chk("white", Within(AsMat(r.lag), z, B) /\ Within(AsMat(r.lagp), z, B),
                   Chk("fresh", Within(AsMat(r.rep), z, B),
                   IF g.k = "cn"
                   THEN Chk("gaussian", \A i \in 1..d : Le(Abs(NSub(AsVec(r.m4)[i], NMul(2, NSq(NSq(s[i]))))), NMul(NMul(NMul(q, 5), NSq(s[i])), NSq(s[i]))), "")
                   ELSE Chk("uniform-phase", Within(ColVec(AsVec(r.ph2)), ZeroMat(d, 1), U) /\ Within(ColVec(AsVec(r.ph3)), ZeroMat(d, 1), U),
                        Chk("amplitudes", \A i \in 1..d : CloseTo(AsVec(r.amin)[i], Abs(g.par[i]), 0, Tok("1e-12")) /\ CloseTo(AsVec(r.amax)[i], Abs(g.par[i]), 0, Tok("1e-12")), ""))))))))
             , o |-> None]

\* ---- snapshots ----------------------------------------------------------------------------------
\* y = A s + n;  the sample covariance is Y Y^H / N
Snapshots(a, s, wl, S, N) == LET P == MatMul(Steer(a, s, wl, "all"), S) IN IF N = <<>> THEN P ELSE MatAdd(P, N)
SampleCov(Y) == MatScale(NDiv(1, Cols(Y)), MatMul(Y, Herm(Y)))
\* r: [t |-> "snap", res, S, N: what the generators returned, sn, nn: numbers of snapshots asked for, intact]
JudgeSnap(H, c, r) ==
    LET a == H[c.a]  s == H[c.s]  wl == AsNum(c.wl)  n == Opt(c, "n", 1)
        gs == H[c.src]  cov == Opt(c, "cov", FALSE)  noisy == Has(c, "noise")  gn == IF noisy THEN H[c.noise] ELSE gs
        outs == Size(a) * ElOut(a.el)
        fits == gs.dim = NSrc(s) /\ (noisy => gn.dim = outs)
        \* a noise of one dimension spreads over the outputs: not said
        open == gs.dim = NSrc(s) /\ noisy /\ (gn.dim = 1 \/ outs = 1)
        \* one generator for both: in which order it is asked is not said
        twice == noisy /\ c.noise = c.src
        moved(q) == IF twice THEN c.src :> Moved(gs, IF q < 0 THEN -1 ELSE 2 * q) ELSE (c.src :> Moved(gs, q)) @@ (IF noisy THEN c.noise :> Moved(gn, q) ELSE c.src :> Moved(gs, q))
        foreseen == ~twice /\ gs.k = "fix" /\ gs.pos >= 0 /\ (noisy => gn.k = "fix" /\ gn.pos >= 0)
        Yf == Snapshots(a, s, wl, EmittedBy(gs, n), IF noisy THEN EmittedBy(gn, n) ELSE <<>>)
    IN IF ~fits THEN [v |-> IF open \/ IsExc(r) THEN "" ELSE "not-rejected", o |-> None, upd |-> moved(-1)]
       ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE LET Y == IF cov THEN r.res.v[1] ELSE r.res
                Y1 == Snapshots(a, s, wl, AsMat(r.S), IF noisy THEN AsMat(r.N) ELSE <<>>)
                Y0 == IF ~twice \/ (IsArrSh(Y, Shape(Y1)) /\ MatClose(AsMat(Y), Y1, Eps)) THEN Y1 ELSE Snapshots(a, s, wl, AsMat(r.N), AsMat(r.S))
            IN [v |-> Chk("result", Has(r, "res") /\ IF cov THEN IsTup(r.res, 2) ELSE r.res.t = "arr",
                      Chk("requested-snapshots", r.sn = <<n>> /\ (noisy => r.nn = <<n>>),
                      Chk("emissions", IF twice THEN AsRead(gs, n, r.S) /\ AsRead(Moved(gs, n), n, r.N) ELSE AsRead(gs, n, r.S) /\ (noisy => AsRead(gn, n, r.N)),
                      Chk("generator-output-modified", r.intact,
                      Chk("snapshots", IsArrSh(Y, Shape(Y0)) /\ MatClose(AsMat(Y), Y0, Eps),
                      IF ~cov THEN ""
                      ELSE LET R0 == SampleCov(Y0)
                           IN Chk("sample-covariance", IsArrSh(r.res.v[2], Shape(R0)) /\ MatClose(AsMat(r.res.v[2]), R0, Tok("1e-9")), "")))))),
                \* (before any observation, what the caller's generators make of it)
                o |-> IF Has(r, "res") THEN r.res ELSE IF foreseen THEN [t |-> "foreseen", Y |-> Yf, cov |-> cov] ELSE [t |-> "junk"], upd |-> moved(n)]

DataOps == {"mkacm", "acm", "acmview", "vula", "ssmooth", "l1svd", "srcnum", "ldstat", "mksig", "emit", "emitstat", "snap"}
DataJudge(H, c, r) ==
    CASE c.op \in {"mkacm", "acm", "acmview", "vula"} -> AcmJudge(H, c, r)
      [] c.op = "ssmooth" -> JudgeSmooth(H, c, r)
      [] c.op = "l1svd"   -> JudgeL1Svd(H, c, r)
      [] c.op = "srcnum"  -> JudgeSrcNum(H, c, r)
      [] c.op = "ldstat" /\ Len(Val(H, c.l).sh) # 1 -> Rejected(r, "ValueError")
      [] c.op = "ldstat"  -> [v |-> Chk("statistic", IsNumV(r) /\ CloseTo(AsNum(r), LdStat(AsVec(Val(H, c.l)), c.k, c.n), NMul(Eps, c.n), Eps), ""), o |-> None]
      [] c.op = "mksig"   -> JudgeMkSig(H, c, r)
      [] c.op = "emit"    -> JudgeEmit(H, c, r)
      [] c.op = "emitstat" -> JudgeEmitStat(H, c, r)
      [] c.op = "snap"    -> JudgeSnap(H, c, r)
=============================================================================
