----------------------------- MODULE Estimators -----------------------------
(***************************************************************************)
(* Spectrum-based estimators, root-MUSIC and ESPRIT.  An estimator is      *)
(*  [t |-> "est", k |-> kind, a |-> array, wl, g |-> grid, finder, opt].   *)
(* Estimators have no state of their own: the judgement of every call      *)
(* depends on these parameters and on the arguments only (P09).            *)
(*                                                                         *)
(* Factorisations that have no closed form (eigenvectors, polynomial roots)*)
(* come with the observation as witnesses w; the specification verifies    *)
(* them before it uses them.                                               *)
(***************************************************************************)
EXTENDS Coarray, Grids

SpectrumKinds == {"bartlett", "mvdr", "music", "minnorm"}
SubspaceKinds == {"music", "minnorm"}

\* ---- eigenvalue decompositions -------------------------------------------
\* E diag(l) E^H = R with orthonormal columns, ascending
EigOk(R, l, E) ==
    LET m == Len(R)  s == NMax(MaxAbs(R), Tok("1e-300")) IN
    /\ Len(l) = m /\ Shape(E) = <<m, m>>
    /\ NonDecreasingV(l)
    /\ Le(MatDist(MatMul(Herm(E), E), Ident(m)), Tok("1e-11"))
    /\ Le(MatDist(MatMul(R, E), Mat(m, m, LAMBDA i, j : NMul(l[j], E[i][j]))), NMul(Tok("1e-11"), NMul(m, s)))
WitE(w) == AsMat(w.E)
WitL(w) == AsVec(w.l)
NoiseCols(m, k)  == [i \in 1..(m-k) |-> i]
SignalCols(m, k) == [i \in 1..k |-> m - k + i]
\* does R determine the subspace of its m - k smallest eigenvalues?  In a cluster of equal eigenvalues every
\* choice is as good: what is certainly noise, and what may be noise
GapOf(l) == NMul(Tok("1e-5"), NMax(Abs(l[1]), Abs(l[Len(l)])))
Parted(l, k) == LET m == Len(l) IN Lt(NAdd(l[m-k], GapOf(l)), l[m-k+1])
SureCols(l, k) == LET m == Len(l) IN SelectSeq(NoiseCols(m, k), LAMBDA i : Lt(l[i], NSub(l[m-k], GapOf(l))))
MaybeCols(l, k) == LET m == Len(l) IN SelectSeq([i \in 1..m |-> i], LAMBDA i : Le(l[i], NAdd(l[m-k+1], GapOf(l))))

\* ---- spectra ---------------------------------------------------------------
\* Values per direction (columns of A).  For music and minnorm the square root
\* of the reciprocal of the spectrum is used ("null" value).
NullDomain(kind) == kind \in SubspaceKinds
SpecRaw(kind, A, R, k, w) ==
    LET n == Cols(A)  m == Rows(A) IN
    CASE kind = "bartlett" ->
           LET RA == MatMul(R, A) IN Vec(n, LAMBDA j : Re(Dot(Col(A, j), Col(RA, j))))
      [] kind = "mvdr" ->
           LET RA == MatMul(Inv(R), A) IN Vec(n, LAMBDA j : NDiv(1, Re(Dot(Col(A, j), Col(RA, j)))))
      [] kind = "music" ->
           LET V == MatMul(Herm(SubCols(WitE(w), NoiseCols(m, k))), A) IN Vec(n, LAMBDA j : Norm(Col(V, j)))
      [] kind = "minnorm" ->
           LET En == SubCols(WitE(w), NoiseCols(m, k))
               c  == Row(En, 1)
               d  == Vec(m, LAMBDA i : NDiv(Dot(c, Row(En, i)), Norm2(c)))
           IN Vec(n, LAMBDA j : Abs(Dot(d, Col(A, j))))
\* observed value x agrees with the raw value v; scale: size of the numbers involved
\* (the condition number for mvdr)
RawScale(kind, R) ==
    CASE kind = "bartlett" -> NMul(Len(R), NMul(Len(R), MaxAbs(R)))
      [] kind = "mvdr" -> NMul(Len(R), NMul(MaxAbs(R), MaxAbs(Inv(R))))
      [] OTHER -> Tok("1")
SpecAgrees(kind, x, v, scale) ==
    CASE kind = "bartlett" -> CloseTo(x, v, NMul(Tok("1e-11"), scale), Eps)
      [] kind = "mvdr"     -> CloseTo(x, v, 0, NMax(Tok("1e-8"), NMul(Tok("1e-14"), scale)))
      [] OTHER -> IF ~IsFin(x) THEN x = Tok("inf") /\ Le(v, Tok("1e-9"))
                  ELSE /\ Lt(0, x)
                       /\ CloseTo(NDiv(1, Sqrt(x)), v, Eps, Tok("1e-8"))
\* the value when R leaves the noise subspace open
SpecWithin(kind, A, S, k, w) ==
    LET V(cols) == LET M == MatMul(Herm(SubCols(WitE(w), cols)), A) IN Vec(Cols(A), LAMBDA j : Norm(Col(M, j)))
        sure == SureCols(WitL(w), k)
        lo == IF sure = <<>> THEN Vec(Cols(A), LAMBDA j : Tok("0")) ELSE V(sure)
        hi == V(MaybeCols(WitL(w), k))
    IN \A j \in 1..Len(S) : IF ~IsFin(S[j]) THEN S[j] = Tok("inf") /\ (kind = "music" => Le(lo[j], Tok("1e-6")))
          ELSE /\ Lt(0, S[j])
               /\ kind = "music" => LET v == NDiv(1, Sqrt(S[j])) IN Le(lo[j], NAdd(v, Tok("1e-6"))) /\ Le(v, NAdd(hi[j], Tok("1e-6")))
\* is v the best value among vs, up to rounding
BestOf(kind, v, vs, scale) ==
    CASE NullDomain(kind) -> Le(v, NAdd(NMul(NMinSeq(vs), Tok("1.00000001")), Eps))
      [] kind = "bartlett" -> Le(NMaxSeq(vs), NAdd(v, NMul(Tok("1e-11"), scale)))
      [] OTHER -> Le(NMaxSeq(vs), NMul(v, Tok("1.00000001")))
\* strictly better up to rounding never: v at least as good as u
AtLeast(kind, v, u, scale) == BestOf(kind, v, <<u>>, scale)

\* ---- peaks --------------------------------------------------------------------
RECURSIVE RunEnd(_, _)
RunEnd(S, i) == IF i < Len(S) /\ NEq(S[i+1], S[i]) THEN RunEnd(S, i + 1) ELSE i
\* strict local maxima and middles of plateaus, never the end points
Peaks1(S) ==
    LET Up == { i \in 2..(Len(S)-1) : Lt(S[i-1], S[i]) }
    IN { (i + RunEnd(S, i)) \div 2 : i \in { q \in Up : LET j == RunEnd(S, q) IN j < Len(S) /\ Lt(S[j+1], S[q]) } }
\* maxima of their 3 x 3 neighbourhood
Nbh(sh, q) == LET co == GCoord(sh, q) IN
    { GPos(sh, <<a, b>>) : a \in IMax(0, co[1]-1)..IMin(sh[1]-1, co[1]+1), b \in IMax(0, co[2]-1)..IMin(sh[2]-1, co[2]+1) }
Peaks2(S, sh) == { q \in 1..Len(S) : \A p \in Nbh(sh, q) : Le(S[p], S[q]) }
DefaultPeaks(S, sh) == IF Len(sh) = 1 THEN Peaks1(S) ELSE Peaks2(S, sh)
\* the catalogue of custom peak finders used by the harness
PeakSet(finder, S, sh) ==
    CASE finder \in {"default", "rev"} -> DefaultPeaks(S, sh)
      [] finder = "even" -> { q \in 1..Len(S) : q % 2 = 1 }
      [] finder = "none" -> {}
      [] finder = "max1" -> { CHOOSE q \in 1..Len(S) : (\A p \in 1..Len(S) : Le(S[p], S[q])) /\ (\A p \in 1..(q-1) : Lt(S[p], S[q])) }
\* P is a choice of k highest members of set Q
Highest(P, Q, S, k) == /\ P \subseteq Q
                       /\ Cardinality(P) = k
                       /\ \A p \in P : \A q \in Q \ P : Le(S[q], S[p])
\* sequence of grid positions of the estimates (0: not a grid point); grids have distinct points
PosOf(pts, x) == IF \E q \in 1..Len(pts) : pts[q] = x THEN CHOOSE q \in 1..Len(pts) : pts[q] = x ELSE 0
Ascending(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]

\* ---- refinement ------------------------------------------------------------------
\* one step of one estimate: x is the new location, found on grid g; returns the coordinate or <<>>
NearIx(x, ax) == IF \E i \in 1..Len(ax) : CloseTo(ax[i], x, TinyTol, TinyTol)
                 THEN (CHOOSE i \in 1..Len(ax) : /\ CloseTo(ax[i], x, TinyTol, TinyTol)
                                                 /\ \A j \in 1..Len(ax) : Le(Abs(NSub(ax[i], x)), Abs(NSub(ax[j], x)))) - 1
                 ELSE -1
Locate(g, x) == [i \in 1..Len(g.axes) |-> NearIx(x[i], g.axes[i])]
GridRaw(e, g, R, k, w) == SpecRaw(e.k, Steer(e.a, GSources(g), e.wl, "known"), R, k, w)
\* locs: successive locations of one estimate; co: its coordinate on g
RECURSIVE RefineOk(_, _, _, _, _, _, _, _)
RefineOk(e, g, co, locs, density, R, k, w) ==
    IF locs = <<>> THEN ""
    ELSE LET sub == Refine(g, co, density, 1)
             c2 == Locate(sub, locs[1])
         IN IF \E i \in 1..Len(c2) : c2[i] < 0 THEN "refined-point-not-on-refined-grid"
            ELSE LET raw == GridRaw(e, sub, R, k, w)
                     v == raw[GPos(GShape(sub), c2)]
                 IN IF ~BestOf(e.k, v, raw, RawScale(e.k, R)) THEN "refined-point-not-best"
                    ELSE RefineOk(e, sub, c2, Tail(locs), density, R, k, w)

\* ---- judgement of one call -----------------------------------------------------------
\* the covariance argument
CovErr(e, X) == IF Len(X.sh) # 2 THEN TRUE ELSE X.sh # <<Size(e.a), Size(e.a)>>
SourceNumberErr(e, k) == e.k \in SubspaceKinds /\ (k > Size(e.a) - 1 \/ k < 1)
ObsSpectrum(x) == AsFlat(x)
SameRes(r, k, g, n) == WellFormedSrc(r, g.k, g.u, n)

\* res: observed result; S: spectrum (sequence); path: successive refinements (placements), the last one is the estimate
\* returns "" or a clause
PeakVerdict(e, S, k, ok, est) ==
    LET sh == GShape(e.g)  Q == PeakSet(e.finder, S, sh) IN
    IF (Cardinality(Q) >= k) # ok THEN "resolved-flag"
    ELSE IF ~ok THEN Chk("estimates-none", est.t = "none", "")
    ELSE IF ~SameRes(est, k, e.g, k) THEN "estimates-kind-unit-count"
    ELSE LET pts == GSources(e.g).loc
             pos == [i \in 1..k |-> PosOf(pts, ObsLoc(est)[i])]
         IN Chk("estimates-on-grid", \A i \in 1..k : pos[i] > 0,
            Chk("grid-order", Ascending(pos),
            Chk("highest-peaks", Highest(Range(pos), Q, S, k), "")))
\* true sources on interior, non-adjacent grid points are found exactly by the subspace methods
TruthVerdict(e, X, k, est) ==
    IF ~(Has(X, "truth") /\ e.k \in SubspaceKinds /\ e.finder = "default" /\ e.g.k = "ff1") THEN ""
    ELSE LET tr == X.truth  ax == e.g.axes[1]
             q == [i \in 1..NSrc(tr.s) |-> NearIx(tr.s.loc[i][1], ax) + 1]
         IN IF ~(tr.ula /\ tr.a = e.a /\ tr.wl = e.wl /\ tr.s.u = e.g.u /\ NSrc(tr.s) = k
                 /\ Le(NMul(2, Abs(tr.d0)), tr.wl)
                 /\ (\A i \in 1..k : q[i] > 1 /\ q[i] < Len(ax)) /\ \A i, j \in 1..k : i # j => q[i] - q[j] \notin {-1, 0, 1}) THEN ""
            ELSE Chk("ideal-sources-resolved", est.t = "src" /\ WellFormedSrc(est, "ff1", e.g.u, k),
                 Chk("ideal-sources-found", { ObsLoc(est)[i][1] : i \in 1..k } = { ax[q[i]] : i \in 1..k }, ""))
\* res [ok, est], res0: result without refinement, w: witnesses
JudgeSpectral(H, c, r) ==
    LET e == H[c.e]  X == Val(H, c.R)  k == c.n
        refine == Opt(c, "refine", FALSE)  dens == Opt(c, "density", 10)  its == Opt(c, "iters", 3)
    IN IF CovErr(e, X) \/ SourceNumberErr(e, k) THEN [v |-> Expect(r, "ValueError"), o |-> None]
       ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE IF r.t # "est" THEN [v |-> "no-observation", o |-> None]
       ELSE LET want == IF Opt(c, "spec", FALSE) THEN 3 ELSE 2
                res == r.res
                R == AsMat(X)
            IN IF ~IsTup(res, want) THEN [v |-> "result-tuple", o |-> None]
               ELSE IF res.v[1].t # "bool" THEN [v |-> "resolved-type", o |-> None]
               ELSE LET \* the spectrum: returned by this call, or by a fresh estimator
                        \* an unresolved result may omit the spectrum, as documented
                        sp == IF want = 3 /\ res.v[3].t = "arr" THEN res.v[3] ELSE r.wit.sp
                        ok == res.v[1].v
                    IN IF want = 3 /\ res.v[3].t # "arr" /\ (ok \/ res.v[3].t # "none") THEN [v |-> "spectrum-missing", o |-> None]
                       ELSE IF ~IsArr(sp) THEN [v |-> "no-spectrum-from-fresh-estimator", o |-> None]
                       ELSE IF sp.sh # GShape(e.g) THEN [v |-> "spectrum-shape", o |-> None]
                       ELSE IF e.k \in SubspaceKinds /\ ~EigOk(R, WitL(r.wit), WitE(r.wit)) THEN [v |-> "bad-witness", o |-> None]
                       ELSE LET S == ObsSpectrum(sp)
                                raw == GridRaw(e, e.g, R, k, r.wit)
                                sc == RawScale(e.k, R)
                                est0 == IF refine /\ its > 0 /\ ok THEN r.wit.est0 ELSE res.v[2]
                                n == IF ok THEN k ELSE 0
                                parted == e.k \in SubspaceKinds => Parted(WitL(r.wit), k)
                                spOk == IF parted THEN \A i \in 1..Len(S) : SpecAgrees(e.k, S[i], raw[i], sc)
                                        ELSE SpecWithin(e.k, Steer(e.a, GSources(e.g), e.wl, "known"), S, k, r.wit)
                                pv == PeakVerdict(e, S, k, ok, est0)
                            IN [v |-> Chk("spectrum", spOk,
                                      IF pv # "" THEN pv
                                      ELSE IF TruthVerdict(e, X, k, est0) # "" THEN TruthVerdict(e, X, k, est0)
                                      ELSE IF ~(refine /\ its > 0 /\ ok) THEN ""
                                      ELSE IF ~SameRes(res.v[2], k, e.g, k) THEN "estimates-kind-unit-count"
                                      ELSE IF ~parted THEN ""
                                      ELSE IF Len(r.wit.path) # its - 1 THEN "no-refinement-witness"
                                      ELSE LET pts == GSources(e.g).loc
                                               L == [j \in 1..its |-> IF j < its THEN ObsLoc(r.wit.path[j]) ELSE ObsLoc(res.v[2])]
                                               bad == SelectSeq([i \in 1..k |->
                                                   RefineOk(e, e.g, GCoord(GShape(e.g), PosOf(pts, ObsLoc(est0)[i])), [j \in 1..its |-> L[j][i]], dens, R, k, r.wit)],
                                                   LAMBDA x : x # "")
                                           IN IF bad = <<>> THEN "" ELSE bad[1]),
                                o |-> res]

\* ---- root-MUSIC -------------------------------------------------------------------------
\* coefficients of a^H(1/z*) C a(z), highest power first: sums of the diagonals m-1, ..., -(m-1)
DiagSum(C, d) == LET m == Len(C) IN NSum([i \in 1..(m - IMax(d, -d)) |-> IF d >= 0 THEN C[i][i+d] ELSE C[i-d][i]])
PolyOf(C) == LET m == Len(C) IN [q \in 1..(2*m-1) |-> DiagSum(C, m - q)]
\* coefficients of lead * PROD (z - z_i)
FromRoots(lead, z) ==
    FoldLeft(LAMBDA p, x : TLCEval([i \in 1..(Len(p)+1) |-> NSub(IF i <= Len(p) THEN p[i] ELSE Tok("0"), IF i > 1 THEN NMul(x, p[i-1]) ELSE Tok("0"))]),
             <<lead>>, z)
RootsOk(p, z) == Len(z) = Len(p) - 1 /\ VecCloseRel(FromRoots(p[1], z), p, Tok("1e-8"))
SortDesc(v) == SortSeq(v, LAMBDA a, b : Lt(Abs(b), Abs(a)))
TopInside(z, k) == SubSeq(SortDesc(SelectSeq(z, LAMBDA x : Lt(Abs2(x), 1))), 1, k)
FreqsOf(r, wl, d) == LET L == ObsLoc(r) IN [i \in 1..Len(L) |-> FreqOf(L[i][1], r.units[1], wl, d)]
\* estimates of an ideal covariance on a ULA
IdealTruth(X, wl, d, k) ==
    /\ Has(X, "truth") /\ X.truth.ula /\ X.truth.iid /\ NSrc(X.truth.s) = k /\ X.truth.wl = wl /\ X.truth.s.k = "ff1"
TruthFreqs(X, wl, d) == [i \in 1..NSrc(X.truth.s) |-> CisTurn(NMul(NDiv(d, wl), CS(X.truth.s.loc[i][1], X.truth.s.u).s))]
\* the true directions fall into the unambiguous range of spacing d
Unambiguous(X, wl, d) == \A i \in 1..NSrc(X.truth.s) : Lt(NMul(2, Abs(NMul(NDiv(d, wl), CS(X.truth.s.loc[i][1], X.truth.s.u).s))), Tok("0.999"))
SinsOf(L, u) == [i \in 1..Len(L) |-> CS(L[i][1], u).s]
SortAsc(v) == SortSeq(v, LAMBDA a, b : Lt(a, b))
EstSorted(r) == LET L == ObsLoc(r) IN \A i \in 1..(Len(L)-1) : Le(L[i][1], L[i+1][1])
TruthFound(X, r, tol) == VecCloseAR(SortAsc(SinsOf(ObsLoc(r), r.units[1])), SortAsc(SinsOf(X.truth.s.loc, X.truth.s.u)), tol, 0)

\* lmax over the gap between signal and noise eigenvalues: amplification of rounding errors in the subspaces
GapFactor(l, k) == LET m == Len(l) IN NDiv(l[m], NMax(NSub(l[m-k+1], l[m-k]), NMul(Tok("1e-13"), l[m])))
SinScale(d, wl) == NMax(1, NDiv(wl, NMul(6, Abs(d))))
\* double roots on the unit circle: the square root of the error in the coefficients
RootTol(l, k, d, wl) == NMul(SinScale(d, wl), NMax(Tok("1e-6"), NMul(20, Sqrt(NMul(Tok("2e-16"), GapFactor(l, k))))))
RotTol(l, k, d, wl) == NMul(SinScale(d, wl), NMax(Tok("1e-8"), NMul(Tok("2e-11"), GapFactor(l, k))))
\* spacings for which every point of the unit circle is a direction; below, a root of arbitrary data may be none:
\* it has no location (nan, or a rejected sine)
AllVisible(d, wl) == Le(wl, NMul(2, Abs(d)))
Partial(X, L, d, wl) == ~Has(X, "truth") /\ ~AllVisible(d, wl) /\ ~AllFin(L)

JudgeRootMusic(H, c, r) ==
    LET e == H[c.e]  X == Val(H, c.R)  k == c.n  u == Opt(c, "unit", "rad")
        d == IF Has(c, "d0") THEN AsNum(c.d0) ELSE NDiv(e.wl, 2)
    IN IF Len(X.sh) # 2 THEN [v |-> Expect(r, "ValueError"), o |-> None]
       ELSE IF X.sh[1] # X.sh[2] \/ k > X.sh[1] - 1 \/ k < 1 THEN [v |-> Expect(r, "ValueError"), o |-> None]
       ELSE IF IsExc(r) THEN [v |-> Chk("raised", u = "sin" /\ ~Has(X, "truth") /\ ~AllVisible(d, e.wl), ""), o |-> None]
       ELSE IF ~(IsTup(r.res, 2) /\ r.res.v[1].t = "bool") THEN [v |-> "result-tuple", o |-> None]
       ELSE IF ~r.res.v[1].v THEN [v |-> Chk("estimates-none", r.res.v[2].t = "none", "unresolved"), o |-> None]
       ELSE LET est == r.res.v[2]  R == AsMat(X)  m == Len(R)
                En == SubCols(WitE(r.wit), NoiseCols(m, k))
                p == PolyOf(MatMul(En, Herm(En)))
                z == AsVec(r.wit.roots)
                deg == Len(p) - 1
                ideal == IdealTruth(X, e.wl, d, k) /\ X.truth.d0 = d /\ Unambiguous(X, e.wl, d)
            IN [v |-> Chk("estimates-kind-unit-count", WellFormedSrc(est, "ff1", u, k),
                      IF Partial(X, ObsLoc(est), d, e.wl) THEN "" ELSE
                      Chk("finite", AllFin(ObsLoc(est)),
                      Chk("ascending", EstSorted(est),
                      IF ideal THEN Chk("ideal-sources", TruthFound(X, est, RootTol(WitL(r.wit), k, d, e.wl)), "")
                      ELSE Chk("bad-witness", EigOk(R, WitL(r.wit), WitE(r.wit)),
                           IF Has(X, "truth") \/ ~Parted(WitL(r.wit), k) THEN "" \* an ideal covariance whose directions are ambiguous, or not of a ULA: double roots
                           ELSE Chk("bad-witness-roots", RootsOk(p, z),
                           LET T == SortDesc(SelectSeq(z, LAMBDA x : Lt(Abs2(x), 1)))
                               clear == Len(T) = k \/ Lt(NAdd(Abs(T[k+1]), Tok("1e-6")), Abs(T[k]))
                           IN Chk("nearest-roots", clear => PermClose(FreqsOf(est, e.wl, d), [i \in 1..k |-> UnitNum(T[i])], Tok("1e-6")), "")))))),
                o |-> r.res]

\* ---- ESPRIT ----------------------------------------------------------------------------------
\* weights 1, sqrt 2, sqrt 3, ..., sqrt 2, 1
DefaultRowWeights(m) == Vec(m, LAMBDA i : Sqrt(IMin(i, m + 1 - i)))
RowScale(w, A) == Mat(Rows(A), Cols(A), LAMBDA i, j : NMul(w[i], A[i][j]))
\* rotation operator by least squares
PhiLS(E1, E2) == MatMul(Inv(MatMul(Herm(E1), E1)), MatMul(Herm(E1), E2))
TLSGram(E1, E2) == LET C == HStack(E1, E2) IN MatMul(Herm(C), C)
\* V: eigenvectors (ascending) of the Gram matrix; the k smallest span the minor subspace
PhiTLS(V, k) == LET V12 == [i \in 1..k |-> SubSeq(V[i], 1, k)]  V22 == [i \in 1..k |-> SubSeq(V[k+i], 1, k)]
                IN MatScale(-1, MatMul(V12, Inv(V22)))
\* z are the eigenvalues of Phi: the elementary symmetric functions agree (characteristic polynomial by its values)
EigvalsOk(Phi, z) ==
    LET n == Len(Phi) IN
    /\ Len(z) = n
    /\ \A t \in 0..n : LET s == CisTurn(NDiv(t, n + 1)) IN
          CloseTo(NProd([i \in 1..n |-> NSub(NMul(s, 2), z[i])]), MatDet(MatSub(MatScale(NMul(s, 2), Ident(n)), Phi)), Tok("1e-8"), Tok("1e-8"))
JudgeEsprit(H, c, r) ==
    LET e == H[c.e]  X == Val(H, c.R)  k == c.n  u == Opt(c, "unit", "rad")
        d == IF Has(c, "d0") THEN AsNum(c.d0) ELSE NDiv(e.wl, 2)
        disp == Opt(c, "disp", 1)
        form == Opt(c, "form", "any")
        mr == X.sh[1] - disp
        badW == Has(c, "rw") /\ (IF c.rw.t = "str" THEN c.rw.v \notin {"none", "default"} ELSE IF c.rw.t # "arr" THEN TRUE ELSE c.rw.sh # <<mr>>)
    IN IF disp < 1 \/ k > mr \/ k < 1 \/ badW \/ form \notin {"any", "ls", "tls"}
       THEN [v |-> Expect(r, "ValueError"), o |-> None]
       ELSE IF IsExc(r) THEN [v |-> IF Has(X, "truth") THEN "raised" ELSE IF u = "sin" THEN Chk("raised", ~AllVisible(NMul(disp, d), e.wl), "") ELSE "raised", o |-> None]
       ELSE IF ~(IsTup(r.res, 2) /\ r.res.v[1] = BoolV(TRUE)) THEN [v |-> "result-tuple", o |-> None]
       ELSE LET est == r.res.v[2]  R == AsMat(X)  m == Len(R)
                Es == SubCols(WitE(r.wit), SignalCols(m, k))
                w == IF ~Has(c, "rw") THEN DefaultRowWeights(mr)
                     ELSE IF c.rw.t = "str" THEN (IF c.rw.v = "none" THEN Vec(mr, LAMBDA i : Tok("1")) ELSE DefaultRowWeights(mr))
                     ELSE AsVec(c.rw)
                E1 == RowScale(w, SubSeq(Es, 1, mr))
                E2 == RowScale(w, SubSeq(Es, 1 + disp, m))
                G == TLSGram(E1, E2)
                dd == NMul(disp, d)
                ideal == IdealTruth(X, e.wl, d, k) /\ X.truth.d0 = d /\ Unambiguous(X, e.wl, dd)
                Freqs == FreqsOf(est, e.wl, dd)
                Agrees(Phi, z) == EigvalsOk(Phi, z) /\ PermClose(Freqs, [i \in 1..k |-> UnitNum(z[i])], Tok("3e-8"))
                LsOk == Agrees(PhiLS(E1, E2), AsVec(r.wit.zls))
                TlsOk == EigOk(G, AsVec(r.wit.gl), AsMat(r.wit.gE)) /\ Agrees(PhiTLS(AsMat(r.wit.gE), k), AsVec(r.wit.ztls))
            IN [v |-> Chk("estimates-kind-unit-count", WellFormedSrc(est, "ff1", u, k),
                      IF Partial(X, ObsLoc(est), dd, e.wl) THEN "" ELSE
                      Chk("finite", AllFin(ObsLoc(est)),
                      Chk("ascending", EstSorted(est),
                      IF ideal THEN Chk("ideal-sources", TruthFound(X, est, RotTol(WitL(r.wit), k, dd, e.wl)), "")
                      ELSE IF Has(X, "truth") THEN ""
                      ELSE Chk("bad-witness", EigOk(R, WitL(r.wit), WitE(r.wit)),
                           Chk("rotation-" \o form, IF ~Parted(WitL(r.wit), k) THEN TRUE ELSE IF form = "ls" THEN LsOk ELSE IF form = "tls" THEN TlsOk ELSE LsOk \/ TlsOk, ""))))),
                o |-> r.res]

\* ---- covariances made by the caller: ideal ones carry the truth -------------------------------------
\* [op idealcov, a, s, wl, p: powers, sg: noise variance]
IdealCov(a, s, wl, p, sg) ==
    LET A == Steer(a, s, wl, "known")
    IN MatAdd(MatMul(Mat(Rows(A), Cols(A), LAMBDA i, j : NMul(A[i][j], p[j])), Herm(A)), MatScale(sg, Ident(Rows(A))))
IsUla(a) == /\ IsGrid(a) /\ Dim(a) = 1 /\ Keep(a.pert, "known") = <<>> /\ a.el = "iso"
            /\ \A i \in 1..Size(a) : Floor(Tok(a.att.idx[i][1])) = i - 1
JudgeIdealCov(H, c, r) ==
    LET a == H[c.a]  s == H[c.s]  wl == AsNum(c.wl)  R == IdealCov(a, s, wl, AsVec(c.p), AsNum(c.sg))
    IN IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE [v |-> Chk("harness-covariance", IsMatV(r) /\ MatClose(AsMat(r), R, Tok("1e-12")), ""),
             o |-> r @@ [truth |-> [a |-> a, s |-> s, wl |-> wl, p |-> AsVec(c.p), sg |-> AsNum(c.sg), ula |-> IsUla(a), iid |-> TRUE,
                                    d0 |-> IF IsGrid(a) THEN a.att.d0[1] ELSE Tok("0")]]]

JudgeMkEst(H, c, r) ==
    [v |-> Chk("raised", ~IsExc(r), ""),
     o |-> IF c.k \in {"rootmusic", "esprit"} THEN [t |-> "est", k |-> c.k, wl |-> AsNum(c.wl)]
           ELSE [t |-> "est", k |-> c.k, a |-> H[c.a], wl |-> AsNum(c.wl), g |-> H[c.g], finder |-> Opt(c, "finder", "default")]]
JudgeEst(H, c, r) ==
    LET e == H[c.e] IN
    CASE e.k \in SpectrumKinds -> JudgeSpectral(H, c, r)
      [] e.k = "rootmusic" -> JudgeRootMusic(H, c, r)
      [] e.k = "esprit" -> JudgeEsprit(H, c, r)
\* the spectrum functions themselves
JudgeFspec(H, c, r) ==
    LET A == AsMat(Val(H, c.A))  R == AsMat(Val(H, c.R))  kind == c.f
        raw == IF kind = "music" THEN LET V == MatMul(Herm(R), A) IN Vec(Cols(A), LAMBDA j : Norm(Col(V, j))) ELSE SpecRaw(kind, A, R, 0, <<>>)
    IN [v |-> Chk("spectrum", IsArrSh(r, <<Cols(A)>>) /\ r.dt = "f" /\ \A i \in 1..Cols(A) : SpecAgrees(kind, AsVec(r)[i], raw[i], RawScale(kind, R)), ""), o |-> r]
\* find_peaks_simple(x): tuple of index arrays
JudgePeaks(H, c, r) ==
    LET x == Val(H, c.x)  S == AsFlat(x)  sh == x.sh  Q == DefaultPeaks(S, sh) IN
    [v |-> Chk("tuple", r.t = "tup" /\ Len(r.v) = Len(sh) /\ \A i \in 1..Len(sh) : IsVecV(r.v[i]),
           Chk("peaks", LET n == r.v[1].sh[1] IN
                 /\ n = Cardinality(Q)
                 /\ { GPos(sh, [j \in 1..Len(sh) |-> AsIntVec(r.v[j])[i]]) : i \in 1..n } = Q, "")), o |-> r]
EstOps == {"mkest", "est", "idealcov", "fspec", "peaks"}
EstJudge(H, c, r) ==
    CASE c.op = "mkest" -> JudgeMkEst(H, c, r)
      [] c.op = "est" -> JudgeEst(H, c, r)
      [] c.op = "idealcov" -> JudgeIdealCov(H, c, r)
      [] c.op = "fspec" -> JudgeFspec(H, c, r)
      [] c.op = "peaks" -> JudgePeaks(H, c, r)
=============================================================================
