------------------------------ MODULE MC_Steer ------------------------------
(* P04, P05: arrays x elements x perturbations x sources x wavelengths: the   *)
(* laws of plane and spherical waves, of perturbations and of derivatives.   *)
EXTENDS MC
CONSTANTS Deriv, Fine      \* whether derivatives are asked for; full product or a thinner one
\* ---- the catalogue (every array has 3 elements) ----
Arrs == << [op |-> "ula", n |-> 3, d0 |-> NumTok("0.5")], [op |-> "uca", n |-> 3, r |-> NumTok("0.75")],
           [op |-> "custom", name |-> "c", loc |-> MatTok(3, 3, <<"0.25 -1 0.5", "1 0.5 -0.25", "-0.75 0.125 2">>)],
           [op |-> "gridarr", name |-> "g", idx |-> IntCol(<<4, -1, 0>>), d0 |-> NumTok("0.4")] >>
LocP(d, known) == [ty |-> "loc", known |-> known, par |-> MatTok(3, d, [i \in 1..3 |-> RowOf([j \in 1..d |-> << <<"0.0625", "-0.125", "0.25">>, <<"-0.25", "0.5", "0.03125">>, <<"0", "0.125", "-0.0625">> >>[i][j]])])]
GainP(known) == [ty |-> "gain", known |-> known, par |-> VecTok(3, "0.25 -0.5 0.125")]
PhaseP(known) == [ty |-> "phase", known |-> known, par |-> VecTok(3, "0.5 -1.25 3")]
McP(known) == [ty |-> "mc", known |-> known, par |-> CMatTok(3, 3, <<"1 0.25,0.125 0", "0.25,0.125 1 0.25,-0.5", "0.0625 0.25,-0.5 1">>)]
Perts == << <<>>, <<GainP(TRUE)>>, <<PhaseP(FALSE)>>, <<McP(TRUE)>>, <<LocP(1, TRUE)>>, <<LocP(2, FALSE)>>, <<LocP(3, TRUE)>>,
            <<GainP(FALSE), PhaseP(TRUE)>>, <<McP(FALSE), GainP(TRUE), LocP(2, TRUE)>>, <<LocP(3, FALSE), PhaseP(TRUE), McP(TRUE), GainP(FALSE)>> >>
Els == << "iso", "card", "nearr", "vec2", "vec3c" >>
Srcs == << [op |-> "ff1", v |-> VecTok(3, "-60 7.5 90"), unit |-> "deg"], [op |-> "ff1", v |-> VecTok(2, "0.3 -1.1"), unit |-> "rad"], [op |-> "ff1", v |-> VecTok(2, "-0.25 0.875"), unit |-> "sin"],
           [op |-> "ff2", v |-> MatTok(3, 2, <<"-120 30", "45 -75", "10 0">>), unit |-> "deg"], [op |-> "ff2", v |-> MatTok(2, 2, <<"2.5 0.4", "-0.75 1.25">>), unit |-> "rad"],
           [op |-> "nf2", v |-> MatTok(3, 2, <<"2 -3.5", "-0.5 1.75", "40 60">>)] >>
OneD == { i \in 1..Len(Srcs) : Srcs[i].op = "ff1" }
Cases == { x \in (1..Len(Arrs)) \X (1..Len(Els)) \X (1..Len(Perts)) \X (1..Len(Srcs)) :
             /\ (ElOut(Els[x[2]]) > 1) => \A i \in 1..Len(Perts[x[3]]) : Perts[x[3]][i].ty = "loc"
             /\ Deriv => (x[2] = 1 \/ (x[1] + x[3] + x[4]) % 5 = 0)
             /\ Fine \/ (x[1] + x[2] + x[3] + 2 * x[4]) % 3 = 0 }
Asked(w, flat) == [op |-> "steer", a |-> "a", s |-> "s", wl |-> NumTok(IF flat THEN "0.5" ELSE "1.25"), which |-> w, flatten |-> flat]
Ask(w, flat) == IF Deriv THEN Asked(w, flat) @@ [deriv |-> TRUE] ELSE Asked(w, flat)
Script(x) ==
    LET ar == Arrs[x[1]] @@ [el |-> Els[x[2]], out |-> "a"]
        pp == [form |-> IF x[1] % 2 = 0 THEN "dict" ELSE "list", items |-> Perts[x[3]]]
    IN << IF Perts[x[3]] = <<>> THEN ar ELSE ar @@ [pert |-> pp], Srcs[x[4]] @@ [out |-> "s"],
          Ask("all", TRUE) @@ [out |-> "r"], [op |-> "poke", x |-> "r"], Ask("known", FALSE), Ask("none", TRUE), Ask("all", TRUE), Ask("some", TRUE),
          [op |-> "pdm", s |-> "s", wl |-> NumTok("0.75"), loc |-> MatTok(2, 2, <<"0.25 -1", "1.5 0.5">>)] @@ (IF Deriv THEN [deriv |-> TRUE] ELSE [o |-> 0]),
          [op |-> "aview", a |-> "a"] >>
Init == \E x \in Cases : CaseInit(Script(x))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

\* ---- laws ----
Wl == Tok("1.25")
Ar == heap["a"]
Sr == heap["s"]
far == Sr.k # "nf2"
nom == [Ar EXCEPT !.pert = <<>>]
Same(A, B) == MatClose(A, B, TinyTol)
St(b, q, w) == Steer(b, q, Wl, w)
W0 == Wave(Sr, Ar.loc, Wl)
UnitModulus == \A i \in 1..Rows(W0) : \A k \in 1..Cols(W0) : CloseTo(Abs2(W0[i][k]), 1, TinyTol, 0)
NoneIsNominal == Same(St(Ar, Sr, "none"), St(nom, Sr, "all"))
KnownLaw == /\ (\A i \in 1..Len(Ar.pert) : Ar.pert[i].known) => Same(St(Ar, Sr, "known"), St(Ar, Sr, "all"))
            /\ (\A i \in 1..Len(Ar.pert) : ~Ar.pert[i].known) => Same(St(Ar, Sr, "known"), St(Ar, Sr, "none"))
            /\ Same(St(Ar, Sr, "known"), St([Ar EXCEPT !.pert = Keep(Ar.pert, "known")], Sr, "all"))
\* only ratios to the wavelength matter (elements whose response depends on the distance aside)
Scaled(b, c) == [b EXCEPT !.loc = [i \in 1..Size(b) |-> VScale(c, b.loc[i])], !.pert = [i \in 1..Len(b.pert) |-> IF b.pert[i].ty = "loc" THEN [b.pert[i] EXCEPT !.par.v = [j \in 1..Len(b.pert[i].par.v) |-> RowOf([q \in 1..Len(TokRow(b.pert[i].par.v[j])) |-> Shown(NMul(c, TokRow(b.pert[i].par.v[j])[q]))])]] ELSE b.pert[i]]]
ScaleLaw == Ar.el # "nearr" => LET s2 == IF far THEN Sr ELSE [Sr EXCEPT !.loc = [i \in 1..NSrc(Sr) |-> VScale(2, Sr.loc[i])]]
                              IN Same(SteerOf(Scaled(Ar, 2).loc, Ar.el, Scaled(Ar, 2).pert, s2, NMul(2, Wl)), St(Ar, Sr, "all"))
\* A translation multiplies every column by the phase of the shift
MoveLaw == far => LET t == << Tok("0.5"), Tok("-0.375"), Tok("0.25") >>
                      L == [i \in 1..Size(Ar) |-> VAdd(Pad3(Ar.loc[i]), t)]
                      f == Wave(Sr, <<t>>, Wl)[1]
                  IN Same(Wave(Sr, L, Wl), Mat(Rows(W0), Cols(W0), LAMBDA i, k : NMul(f[k], W0[i][k])))
\* the mirrored array sees the conjugate wave
MirrorLaw == far => Same(Wave(Sr, [i \in 1..Size(Ar) |-> VScale(-1, Ar.loc[i])], Wl), MatConj(W0))
\* spherical waves of far away sources are plane waves, up to the phase at the first element
PlaneLimit == Sr.k = "ff2" =>
    LET Rr == Tok("100000000")
        flat2 == [Sr EXCEPT !.loc = [i \in 1..NSrc(Sr) |-> << Sr.loc[i][1], Tok("0") >>]]
        d == [i \in 1..NSrc(Sr) |-> DirFar(flat2, i)]
        n == MkSrc("nf2", "m", [i \in 1..NSrc(Sr) |-> << NMul(Rr, d[i].ca), NMul(Rr, d[i].sa) >>])
        P == Wave(flat2, Ar.loc, Wl)  N == Wave(n, Ar.loc, Wl)
    IN MatClose(N, Mat(Rows(P), Cols(P), LAMBDA i, k : NMul(P[i][k], Conj(P[1][k]))), Tok("1e-6"))
\* the broadside angle is measured in the plane: azimuth 90 degrees less the angle
BroadsideLaw == (Sr.k = "ff1" /\ Sr.u = "deg") => Same(W0, Wave(MkSrc("ff2", "deg", [i \in 1..NSrc(Sr) |-> << NSub(90, Sr.loc[i][1]), Tok("0") >>]), Ar.loc, Wl))
UnitLaw == (Sr.k # "nf2" /\ Sr.u = "deg") => Same(W0, Wave(MkSrc(Sr.k, "rad", [i \in 1..NSrc(Sr) |-> [j \in 1..SDim(Sr.k) |-> DegToRad(Sr.loc[i][j])]]), Ar.loc, Wl))
\* columns are independent, rows too
ColumnLaw == \A k \in 1..NSrc(Sr) : LET q == [Sr EXCEPT !.loc = << Sr.loc[k] >>]  A == St(Ar, Sr, "all") IN VecClose(Col(St(Ar, q, "all"), 1), Col(A, k), TinyTol)
\* gain and phase errors commute, coupling is applied last
Diagonals == LET g == SelectSeq(Ar.pert, LAMBDA p : p.ty \in {"gain", "phase"}) IN
    Same(FoldLeft(ApplyPert, W0, g), FoldLeft(ApplyPert, W0, Reverse(g)))

\* ---- derivatives ----
AskD == Deriv /\ Sr.k = "ff1" /\ Ar.el = "iso"
D == DSteer(Ar, Sr, Wl, "all")
DLaw == AskD => LET L == LocUnder(Ar.loc, Ar.pert)  A == Wave(Sr, L, Wl)  P == DPhase(Sr, L, Wl)
                    B == Mat(Rows(A), Cols(A), LAMBDA i, k : NMul(NMul(Cplx(0, TwoPi), P[i][k]), A[i][k]))
                IN (\A k \in 1..NSrc(Sr) : Sr.u = "sin" \/ ~NEq(CS(Sr.loc[k][1], Sr.u).c, 0)) => MatClose(D, FoldLeft(ApplyPert, B, Ar.pert), Tok("1e-15"))
\* d/dtheta of the phase of a linear array: 2 pi x cos(theta) / wavelength
LinearPhase == (AskD /\ Len(Ar.loc[1]) = 1 /\ Sr.u = "rad") =>
    MatClose(DPhase(Sr, Ar.loc, Wl), Mat(Size(Ar), NSrc(Sr), LAMBDA i, k : NDiv(NMul(Ar.loc[i][1], CosRad(Sr.loc[k][1])), Wl)), Tok("1e-15"))
ChainDeg == (AskD /\ Sr.u = "deg") => LET t == MkSrc("ff1", "rad", [i \in 1..NSrc(Sr) |-> << DegToRad(Sr.loc[i][1]) >>]) IN
    MatClose(D, MatScale(NDiv(Pi, 180), DSteer(Ar, t, Wl, "all")), Tok("1e-15"))
ChainSin == (AskD /\ Sr.u = "rad") => LET t == MkSrc("ff1", "sin", [i \in 1..NSrc(Sr) |-> << SinRad(Sr.loc[i][1]) >>])  E == DSteer(Ar, t, Wl, "all") IN
    MatClose(D, Mat(Rows(E), Cols(E), LAMBDA i, k : NMul(CosRad(Sr.loc[k][1]), E[i][k])), Tok("1e-15"))
=============================================================================
