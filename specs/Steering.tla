------------------------------ MODULE Steering ------------------------------
(***************************************************************************)
(* The physical forward model: phases of plane and spherical waves, element*)
(* responses, perturbations, and derivatives.                              *)
(***************************************************************************)
EXTENDS Sources

WaveDot(p, d) == NSum(<< NMul(p[1], NMul(d.ce, d.ca)),
                         IF Len(p) > 1 THEN NMul(p[2], NMul(d.ce, d.sa)) ELSE Tok("0"),
                         IF Len(p) > 2 THEN NMul(p[3], d.se) ELSE Tok("0") >>)
Dist(p, q) == Norm(VSub(Pad3(p), Pad3(q)))
\* phase in turns of source k at location p, relative to the origin (far field) or to the first sensor p1
PhaseTurns(s, k, p, p1, wl) ==
    IF s.k = "nf2" THEN NDiv(NSub(Dist(p1, s.loc[k]), Dist(p, s.loc[k])), wl)
    ELSE NDiv(WaveDot(p, DirFar(s, k)), wl)
PhaseMat(s, L, wl) == Mat(Len(L), NSrc(s), LAMBDA i, k : PhaseTurns(s, k, L[i], L[1], wl))

\* outputs of one element of type el towards a direction
Response(el, d) ==
    CASE el = "iso"   -> << Tok("1") >>
      [] el = "card"  -> << NAdd(1, NMul(Half, NMul(d.ca, d.ce))) >>
      [] el = "nearr" -> << NAdd(IF IsFin(d.r) THEN NDiv(d.r, NAdd(d.r, 1)) ELSE Tok("1"), NMul("1/4", d.se)) >>
      [] el = "iso2"  -> << Tok("1"), Tok("-1/2") >>
      [] el = "vec2"  -> << d.ca, d.sa >>
      [] el = "vec3c" -> << Tok("1"), Cplx(0, NMul(d.ca, d.ce)), Cplx(d.sa, NMul("-1/2", d.se)) >>
\* sensor-major stacking: output l of element m is row (l-1)*M + m
Outer(el, s, L, A) ==
    LET M == Len(L)  n == ElOut(el)
        F == [i \in 1..M |-> [k \in 1..NSrc(s) |-> Response(el, Direction(s, k, L[i]))]]
        FE == TLCEval(F)
    IN Mat(n * M, NSrc(s), LAMBDA q, k : NMul(FE[((q-1) % M) + 1][k][((q-1) \div M) + 1], A[((q-1) % M) + 1][k]))

ApplyPert(A, p) ==
    CASE p.ty \in {"gain", "gain2"} -> LET g == AsVec(p.par) IN Mat(Rows(A), Cols(A), LAMBDA i, k : NMul(NAdd(1, g[i]), A[i][k]))
      [] p.ty = "phase" -> LET f == Vec(Rows(A), LAMBDA i : CisRad(AsVec(p.par)[i])) IN Mat(Rows(A), Cols(A), LAMBDA i, k : NMul(f[i], A[i][k]))
      [] p.ty = "mc"    -> MatMul(AsMat(p.par), A)
      [] p.ty = "scale" -> MatScale(AsVec(p.par)[2], A)
      [] OTHER -> A
Wave(s, L, wl) == LET P == PhaseMat(s, L, wl) IN Mat(Rows(P), Cols(P), LAMBDA i, k : CisTurn(P[i][k]))
SteerOf(loc, el, ps, s, wl) ==
    LET L == LocUnder(loc, ps)
        A0 == Wave(s, L, wl)
    IN FoldLeft(ApplyPert, IF ElPlain(el) THEN A0 ELSE Outer(el, s, L, A0), ps)
\* the steering matrix of array a under "all" / "known" / "none" perturbations
Steer(a, s, wl, which) == SteerOf(a.loc, a.el, Keep(a.pert, which), s, wl)

\* derivative of column k with respect to the location of source k: central difference
\* with step 2^-60 in 240-bit arithmetic (truncation error about 1e-36)
DStep == NDiv(1, NMul(NMul(Tok("1073741824"), Tok("1073741824")), 1))
Shift(s, h) == [s EXCEPT !.loc = [k \in 1..NSrc(s) |-> << NAdd(s.loc[k][1], h) >>]]
DSteer(a, s, wl, which) ==
    LET P == Steer(a, Shift(s, DStep), wl, which)  Q == Steer(a, Shift(s, NNeg(DStep)), wl, which)
    IN Mat(Rows(P), Cols(P), LAMBDA i, k : NDiv(NSub(P[i][k], Q[i][k]), NMul(2, DStep)))
DPhase(s, L, wl) ==
    LET P == PhaseMat(Shift(s, DStep), L, wl)  Q == PhaseMat(Shift(s, NNeg(DStep)), L, wl)
    IN Mat(Rows(P), Cols(P), LAMBDA i, k : NDiv(NSub(P[i][k], Q[i][k]), NMul(2, DStep)))
TwoPi == NMul(2, Pi)

\* ---- judgements ------------------------------------------------------------
WhichSet == {"all", "known", "none"}
\* shape of the returned array: flattened matrices, or outputs x sensors x sources
SteerShape(a, s, flat) == IF ElScalar(a.el) \/ flat THEN << Size(a) * ElOut(a.el), NSrc(s) >> ELSE << ElOut(a.el), Size(a), NSrc(s) >>
SteerMatches(x, sh, M) == IsArrSh(x, sh) /\ x.dt = "c" /\ MatClose(AsRows(x), M, Eps)
JudgeSteer(H, c, r) ==
    LET a == H[c.a]  s == H[c.s]  wl == AsNum(c.wl)
        which == Opt(c, "which", "all")  flat == Opt(c, "flatten", TRUE)  der == Opt(c, "deriv", FALSE)
    IN IF which \notin WhichSet THEN Rejected(r, "ValueError")
       ELSE IF der /\ (s.k # "ff1" \/ ~ElPlain(a.el)) THEN Rejected(r, "")
       ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE LET A == Steer(a, s, wl, which)  sh == SteerShape(a, s, flat) IN
            IF ~der THEN [v |-> Chk("steering-matrix", SteerMatches(r, sh, A), ""), o |-> r]
            ELSE [v |-> Chk("pair", IsTup(r, 2),
                        Chk("steering-matrix", SteerMatches(r.v[1], sh, A),
                        Chk("derivative", SteerMatches(r.v[2], sh, DSteer(a, s, wl, which)), ""))), o |-> r]
JudgePdm(H, c, r) ==
    LET s == H[c.s]  X == Val(H, c.loc)  wl == AsNum(c.wl)  der == Opt(c, "deriv", FALSE) IN
    IF X.sh[2] < 1 \/ X.sh[2] > 3 THEN Rejected(r, "ValueError")
    ELSE IF der /\ s.k # "ff1" THEN Rejected(r, "")
    ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
    ELSE LET L == AsMat(X)  D == MatScale(TwoPi, PhaseMat(s, L, wl))  sh == << Len(L), NSrc(s) >> IN
         IF ~der THEN [v |-> Chk("phase-delays", IsArrSh(r, sh) /\ MatClose(AsMat(r), D, Eps), ""), o |-> r]
         ELSE [v |-> Chk("pair", IsTup(r, 2),
                     Chk("phase-delays", IsArrSh(r.v[1], sh) /\ MatClose(AsMat(r.v[1]), D, Eps),
                     Chk("derivative", IsArrSh(r.v[2], sh) /\ MatClose(AsMat(r.v[2]), MatScale(TwoPi, DPhase(s, L, wl)), Eps), ""))), o |-> r]
\* ---- one element by itself: response to waves (r, azimuth, elevation in radians) and, for
\* polarised elements, their polarisation (last axis of pol)
ElPol(el) == el \in {"pol1", "pol2"}
AngleDir(r, az, e) == LET a == CisRad(az)  b == CisRad(e) IN [r |-> r, ca |-> Re(a), sa |-> Im(a), ce |-> Re(b), se |-> Im(b)]
PolResponse(el, d, p) ==
    CASE el = "pol2" -> LET g == CisRad(p[1]) IN << NMul(d.ca, Re(g)), NMul(NMul(d.se, Im(g)), CisRad(p[2])) >>
      [] el = "pol1" -> << NAdd(1, NMul(d.ca, p[1])) >>
ShapeOf(x) == IF x.t = "arr" THEN x.sh ELSE <<>>
FlatOf(x)  == IF x.t = "arr" THEN AsFlat(x) ELSE << AsNum(x) >>
JudgeElResp(H, c, r) ==
    LET sh == ShapeOf(c.r)  n == SeqProd(sh)  L == ElOut(c.e)
        pd == IF Has(c, "pol") THEN c.pol.sh[Len(c.pol.sh)] ELSE 0
        W == TLCEval([i \in 1..n |->
                 LET d == AngleDir(FlatOf(c.r)[i], FlatOf(c.az)[i], FlatOf(c.elv)[i]) IN
                 IF Has(c, "pol") THEN PolResponse(c.e, d, SubSeq(AsFlat(c.pol), (i - 1) * pd + 1, i * pd))
                 ELSE IF c.e = "pol1" THEN << NAdd(1, NMul(d.ca, Half)) >> ELSE Response(c.e, d)])
        want == Vec(n * L, LAMBDA q : W[((q - 1) % n) + 1][((q - 1) \div n) + 1])
    IN IF ShapeOf(c.az) # sh \/ ShapeOf(c.elv) # sh THEN Rejected(r, "ValueError")
       ELSE IF Has(c, "pol") /\ (~ElPol(c.e) \/ c.pol.sh # sh \o <<pd>>) THEN Rejected(r, "ValueError")
       ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE [v |-> Chk("shape", ShapeOf(r) = (IF L = 1 THEN sh ELSE <<L>> \o sh),
                   Chk("response", VecClose(FlatOf(r), want, TinyTol), "")), o |-> r]
JudgeElView(H, c, r) ==
    [v |-> Chk("raised", ~IsExc(r),
           Chk("element", r = [t |-> "elview", out |-> ElOut(c.e), scalar |-> ElOut(c.e) = 1, iso |-> ElIso(c.e), pol |-> ElPol(c.e)], "")), o |-> None]
SteerOps == {"steer", "pdm", "elresp", "elview"}
SteerJudge(H, c, r) == CASE c.op = "steer" -> JudgeSteer(H, c, r) [] c.op = "pdm" -> JudgePdm(H, c, r)
                         [] c.op = "elresp" -> JudgeElResp(H, c, r) [] c.op = "elview" -> JudgeElView(H, c, r)
=============================================================================
