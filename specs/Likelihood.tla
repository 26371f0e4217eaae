----------------------------- MODULE Likelihood -----------------------------
(***************************************************************************)
(* Covariance based maximum-likelihood estimators.  An estimator is        *)
(*  [t |-> "ml", k |-> "aml" | "cml" | "wsf", a, wl, last]                 *)
(* last: what get_last_estimates returns -- nothing before the first       *)
(* estimation, then the placement found by the last one; an estimation that*)
(* did not converge leaves some placement of its problem's kind and size.  *)
(* The optimiser is not specified, its outcome is: never above the initial *)
(* guess, inside the valid ranges, and a local minimum of the criterion.   *)
(***************************************************************************)
EXTENDS Bounds

NoLast == [t |-> "never"]
\* criterion at placement s
WsfM(R, k, w) ==
    LET m == Len(R)  l == WitL(w)  E == WitE(w)
        sg == NDiv(NSum([i \in 1..(m-k) |-> l[i]]), m - k)
        wt == [i \in 1..k |-> NDiv(NSq(NSub(l[m-k+i], sg)), l[m-k+i])]
        Es == SubCols(E, SignalCols(m, k))
    IN MatMul(Mat(m, k, LAMBDA i, j : NMul(Es[i][j], wt[j])), Herm(Es))
TraceRe(A) == Re(Trace(A))
CriterionAt(kind, R, M, A) ==
    IF ~WellCond(MatMul(Herm(A), A)) THEN Tok("nan") ELSE
    LET P == Projector(A)  N == Complement(P)  m == Rows(A)  k == Cols(A) IN
    CASE kind = "cml" -> TraceRe(MatMul(N, R))
      [] kind = "wsf" -> TraceRe(MatMul(N, M))
      [] kind = "aml" -> LET S == MatAdd(MatMul(P, MatMul(R, P)), MatScale(NDiv(TraceRe(MatMul(N, R)), m - k), N))
                         IN Log(Re(MatDet(S)))
CritOf(e, R, M, s) == CriterionAt(e.k, R, M, Steer(e.a, s, e.wl, "known"))
CritScale(f) == NMax(Tok("1"), Abs(f))
\* the straight way from placement s to t
Between(s, t, q, n) == [s EXCEPT !.loc = [i \in 1..NSrc(s) |-> [j \in 1..Len(s.loc[1]) |->
                           NAdd(s.loc[i][j], NMul(Tok(Int2Str(q) \o "/" \o Int2Str(n)), NSub(t.loc[i][j], s.loc[i][j])))]]]
WaySteps == 5
\* s is not a local minimum: the criterion decreases all the way to t, by more than the optimiser may leave
Downhill(e, R, M, s, t) ==
    LET f == TLCEval([q \in 0..WaySteps |-> CritOf(e, R, M, Between(s, t, q, WaySteps))])
    IN /\ \A q \in 1..WaySteps : Le(f[q], f[q-1])
       /\ Lt(NAdd(f[WaySteps], NMul(Tok("1e-3"), CritScale(f[0]))), f[0])
\* gradients of the criterion may vanish at the ends of the valid range: there the optimiser may stop anywhere
Interior(s) == \A i \in 1..NSrc(s) : \A j \in 1..Len(s.loc[1]) : Lt(Abs(s.loc[i][j]), NMul(Bounds(s.k, s.u)[j], Tok("0.999")))
Near(s, t, tol) == \A i \in 1..NSrc(s) : \A j \in 1..Len(s.loc[1]) : CloseTo(s.loc[i][j], t.loc[i][j], tol, 0)
\* nearness in angle
AngTol(s, x) == IF s.u = "deg" THEN NMul(60, Tok(x)) ELSE Tok(x)
MlIdeal(e, X, s0) ==
    /\ Has(X, "truth")
    /\ X.truth.a = e.a /\ X.truth.wl = e.wl /\ X.truth.s.k = s0.k /\ X.truth.s.u = s0.u /\ NSrc(X.truth.s) = NSrc(s0)
    /\ s0.k = "ff1"
    /\ Near(s0, X.truth.s, AngTol(s0, "0.03"))
    /\ LET A == Steer(e.a, X.truth.s, e.wl, "known")  D == DSteer(e.a, X.truth.s, e.wl, "known")
           be == MatMul(Complement(Projector(A)), D)
       IN PosedNull(A, D) /\ \A i \in 1..Cols(A) : Lt(NMul(Tok("0.05"), Norm2(Col(D, i))), Norm2(Col(be, i)))
MlBad(e, X, k) == IF Len(X.sh) # 2 THEN TRUE ELSE X.sh # <<Size(e.a), Size(e.a)>> \/ k > Size(e.a) - 1

\* the result s is not a local minimum: there is a way down, to the challenge or to the true sources
NotMinimal(e, R, M, s, s0, X, ch) ==
    /\ Interior(s)
    /\ \/ LET t == MkSrc(s.k, s.u, ObsLoc(ch)) IN InRange(t.k, t.u, t.loc) /\ Downhill(e, R, M, s, t)
       \/ MlIdeal(e, X, s0) /\ Downhill(e, R, M, s, X.truth.s)
\* a fresh estimator gives the same answer (up to where the optimiser stops)
AsFresh(e, R, M, s, s0, w) ==
    IF ~Has(w, "fr") THEN TRUE
    ELSE IF w.fr.v[1].v = FALSE THEN FALSE
    ELSE LET t == MkSrc(s0.k, s0.u, ObsLoc(w.fr.v[2])) IN
         Near(s, t, AngTol(s, "1e-4")) \/ CloseTo(CritOf(e, R, M, s), CritOf(e, R, M, t), Tok("1e-6"), Tok("1e-6"))
JudgeMlEst(H, c, r) ==
    LET e == H[c.e]  X == Val(H, c.R)  s0 == H[c.s0]  k == NSrc(s0)
        ran == [e EXCEPT !.last = [t |-> "some", k |-> s0.k, u |-> s0.u, n |-> k]]
        Out(v) == [v |-> v, o |-> None]
    IN IF MlBad(e, X, k) THEN Out(Expect(r, "ValueError"))
       ELSE IF IsExc(r) THEN Out("raised")
       ELSE IF ~(IsTup(r.res, 2) /\ r.res.v[1].t = "bool") THEN Out("result-tuple")
       ELSE IF ~r.res.v[1].v THEN [v |-> Chk("estimates-none", r.res.v[2].t = "none", Chk("as-fresh", Has(r.wit, "fr") => ~r.wit.fr.v[1].v, "")), o |-> r.res, upd |-> (c.e :> ran)]
       ELSE LET est == r.res.v[2]  R == AsMat(X) IN
            IF ~WellFormedSrc(est, s0.k, s0.u, k) THEN Out("estimates-kind-unit-count")
            ELSE IF ~AllFin(ObsLoc(est)) THEN Out("finite")
            ELSE LET s == MkSrc(s0.k, s0.u, ObsLoc(est))
                     M == IF e.k = "wsf" THEN WsfM(R, k, r.wit) ELSE <<>>
                     f0 == CritOf(e, R, M, s0)  f == CritOf(e, R, M, s)
                 IN [v |-> Chk("in-range", InRange(s.k, s.u, s.loc),
                           Chk("bad-witness", e.k = "wsf" => EigOk(R, WitL(r.wit), WitE(r.wit)),
                           IF ~AsFresh(e, R, M, s, s0, r.wit) THEN "as-fresh"
                           ELSE IF ~(IsFin(f0) /\ IsFin(f)) THEN ""
                           ELSE Chk("not-above-initial", Le(f, NAdd(f0, NMul(Tok("1e-7"), CritScale(f0)))), ""))),
                     o |-> IF Has(r.wit, "ch") THEN r.res @@ [stuck |-> NotMinimal(e, R, M, s, s0, X, r.wit.ch)] ELSE r.res,
                     upd |-> (c.e :> [e EXCEPT !.last = s])]
JudgeMlLast(H, c, r) ==
    LET e == H[c.e] IN
    CASE e.last.t = "never" -> Rejected(r, "RuntimeError")
      [] e.last.t = "some" -> [v |-> Chk("last-kind", WellFormedSrc(r, e.last.k, e.last.u, e.last.n), ""), o |-> r]
      [] OTHER -> [v |-> ViewSrc(e.last, r), o |-> r]
\* The optimiser may fail, stall or leave the basin of the truth from some starts, but not from all of several:
\* one run converges to a local minimum, and, where the command names the true sources, to them.
JudgeMlAny(H, c, r) ==
    LET res == [i \in 1..Len(c.os) |-> H[c.os[i]]]
        won == SelectSeq(res, LAMBDA x : x.t = "tup" /\ x.v[1] = BoolV(TRUE)) IN
    [v |-> Chk("never-resolved", won # <<>>,
           Chk("never-minimal", \E i \in 1..Len(won) : Has(won[i], "stuck") /\ ~won[i].stuck,
           Chk("never-found", Has(c, "s") => LET s == H[c.s] IN
               \E i \in 1..Len(won) : Near(MkSrc(s.k, s.u, ObsLoc(won[i].v[2])), s, AngTol(s, c.tol)), ""))), o |-> None]
\* the stochastic likelihood itself: log|S| + tr(S^-1 R), S = A P A^H + sg I
JudgeNllSt(H, c, r) ==
    LET A == Steer(H[c.a], H[c.s], AsNum(c.wl), "all")  m == Rows(A)  R == AsMat(Val(H, c.R))  p == AsVec(c.p)
        S == MatAdd(MatMul(Mat(m, Cols(A), LAMBDA i, j : NMul(A[i][j], p[j])), Herm(A)), MatScale(AsNum(c.sg), Ident(m)))
        w == NAdd(Log(Re(MatDet(S))), Re(Trace(MatMul(MatInv(S), R))))
    IN IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE [v |-> Chk("number", r.t = "num", Chk("likelihood", CloseTo(Tok(r.v), w, Tok("1e-8"), Tok("1e-8")), "")), o |-> r]
MlOps == {"nllst", "mkml", "mlest", "mllast", "mlany"}
MlJudge(H, c, r) ==
    CASE c.op = "nllst" -> JudgeNllSt(H, c, r)
      [] c.op = "mkml" -> [v |-> Chk("raised", ~IsExc(r), ""), o |-> [t |-> "ml", k |-> c.k, a |-> H[c.a], wl |-> AsNum(c.wl), last |-> NoLast]]
      [] c.op = "mlest" -> JudgeMlEst(H, c, r)
      [] c.op = "mllast" -> JudgeMlLast(H, c, r)
      [] c.op = "mlany" -> JudgeMlAny(H, c, r)
=============================================================================
