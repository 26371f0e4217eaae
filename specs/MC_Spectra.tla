----------------------------- MODULE MC_Spectra -----------------------------
(* P10: ideal covariances of every few sources on a small grid, seen by       *)
(* several arrays: the known relations between the four spectra.             *)
EXTENDS MC
CONSTANTS G, Kmax      \* grid points; sources up to Kmax
Tup(s) == [t |-> "tup", v |-> s]
GridC == [op |-> "g1", unit |-> "deg", start |-> NumTok("-80"), stop |-> NumTok("80"), size |-> IntV(G), out |-> "g"]
GainP == [form |-> "dict", items |-> << [ty |-> "gain", known |-> TRUE, par |-> VecTok(4, "0.25 -0.5 0.125 0")], [ty |-> "phase", known |-> TRUE, par |-> VecTok(4, "0.5 -1.25 3 0.25")] >>]
Hidden == [form |-> "list", items |-> << [ty |-> "loc", known |-> FALSE, par |-> MatTok(4, 2, <<"0.125 0.25", "-0.25 0", "0 0.5", "0.25 -0.125">>)] >>]
Arrs == << [op |-> "ula", n |-> 4, d0 |-> NumTok("0.5")], [op |-> "nested", n1 |-> 2, n2 |-> 2, d0 |-> NumTok("0.5")], [op |-> "ula", n |-> 4, d0 |-> NumTok("0.4"), pert |-> GainP],
           [op |-> "custom", name |-> "c", loc |-> MatTok(4, 2, <<"0 0", "0.5 0.125", "1.25 -0.25", "1.5 0.5">>), pert |-> Hidden], [op |-> "ura", m |-> 2, n |-> 2, d0 |-> NumTok("0.45")] >>
Kinds0 == <<"bartlett", "mvdr", "music", "minnorm">>
Pts == NewGrid(GridC).o.axes[1]
RECURSIVE Choose(_, _)
\* increasing sequences of k of the points 1..G
Choose(k, lo) == IF k = 0 THEN {<<>>} ELSE UNION { { <<i>> \o t : t \in Choose(k - 1, i + 1) } : i \in lo..G }
Pw(k) == RowOf([i \in 1..k |-> << "2", "0.5", "1" >>[i]])
Src(q) == [op |-> "ff1", v |-> VecTok(Len(q), RowOf([i \in 1..Len(q) |-> Shown(Pts[q[i]])])), unit |-> "deg", out |-> "s"]
E(i) == "e" \o Int2Str(i)
Script(ar, q, sg) ==
    << Arrs[ar] @@ [out |-> "a"], GridC, Src(q),
       [op |-> "idealcov", a |-> "a", s |-> "s", wl |-> NumTok("1"), p |-> VecTok(Len(q), Pw(Len(q))), sg |-> NumTok(sg), out |-> "R"] >>
    \o [i \in 1..4 |-> [op |-> "mkest", k |-> Kinds0[i], a |-> "a", g |-> "g", wl |-> NumTok("1"), cache |-> (ar + i) % 2 = 0, out |-> E(i)]]
    \o [i \in 1..4 |-> [op |-> "est", e |-> E(i), R |-> Ref("R"), n |-> Len(q), spec |-> TRUE, out |-> "o" \o Int2Str(i)]]
    \o << [op |-> "rpoke", x |-> "o1"], [op |-> "est", e |-> "e1", R |-> Ref("R"), n |-> 1, spec |-> TRUE], [op |-> "est", e |-> "e3", R |-> Ref("R"), n |-> IMin(3, Len(q) + 1), spec |-> TRUE],
          [op |-> "est", e |-> "e4", R |-> Ref("R"), n |-> IMax(1, Len(q) - 1), spec |-> TRUE] >>
Init == \E ar \in 1..Len(Arrs) : \E k \in 1..Kmax : \E q \in Choose(k, 1) : CaseInit(Script(ar, q, IF (q[1] + k) % 2 = 0 THEN "0.5" ELSE "0.0625"))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

\* everything the laws speak of, computed once per case
Ctx ==
    LET Ar == heap["a"]  Sr == heap["s"]  k == NSrc(Sr)  p == TokRow(Pw(k))  sg == Tok(hist[4].sg.v)
        A == Steer(Ar, Sr, Tok("1"), "known")
        R == IdealCov(Ar, Sr, Tok("1"), p, sg)
        V == Steer(Ar, GSources(heap["g"]), Tok("1"), "known")
        posed == WellCond(MatMul(Herm(A), A))
        Pn == IF posed THEN Complement(Projector(A)) ELSE <<>>
        PV == IF posed THEN MatMul(Pn, V) ELSE <<>>
        n2 == Vec(Cols(V), LAMBDA j : Norm2(Col(V, j)))
    IN TLCEval([s |-> Sr, k |-> k, p |-> p, sg |-> sg, A |-> A, R |-> R, V |-> V, n2 |-> n2, posed |-> posed, e |-> IF posed THEN Re(Pn[1][1]) ELSE 0,
         B |-> SpecRaw("bartlett", V, R, k, <<>>), C |-> SpecRaw("mvdr", V, R, k, <<>>),
         null |-> IF posed THEN Vec(Cols(V), LAMBDA j : Norm(Col(PV, j))) ELSE <<>>,
         mn |-> IF posed THEN LET d == Col(Pn, 1) IN Vec(Cols(V), LAMBDA j : NDiv(Abs(Dot(d, Col(V, j))), Re(Pn[1][1]))) ELSE <<>>,
         truth |-> { i \in 1..G : \E j \in 1..k : NEq(Sr.loc[j][1], Pts[i]) }])
Slack(v) == NMul(v, Tok("1.000000000001"))
\* the beamformer that passes only its direction lets less through (Cauchy-Schwarz)
CaponBelowBartlett(x) == \A j \in 1..G : Le(NMul(NSq(x.n2[j]), x.C[j]), Slack(x.B[j]))
NoiseFloor(x) == \A j \in 1..G : Le(NMul(x.n2[j], x.sg), Slack(x.B[j]))
CaponFloor(x) == \A j \in 1..G : Le(x.sg, Slack(NMul(x.n2[j], x.C[j])))
\* Capon never underestimates the power of a source
CaponPower(x) == \A i \in x.truth : \E j \in 1..x.k : NEq(x.s.loc[j][1], Pts[i]) /\ Le(x.p[j], Slack(x.C[i]))
Nulls(x) == x.posed => \A i \in x.truth : Le(x.null[i], Eps) /\ Le(x.mn[i], Eps)
\* the vector of the min-norm method lies in the noise subspace and starts with one
MinNormBelow(x) == x.posed => \A j \in 1..G : Le(NMul(x.mn[j], Sqrt(x.e)), NAdd(x.null[j], TinyTol))
\* a linear array with half-wavelength spacing sees no other nulls
OnlyNulls(x) == (x.posed /\ hist[1].op = "ula") => \A i \in (1..G) \ x.truth : Lt(Tok("1e-6"), x.null[i])
\* both beamformers scale with the covariance
Scales(x) == LET R2 == MatScale("5/2", x.R) IN VecClose(SpecRaw("bartlett", x.V, R2, x.k, <<>>), VScale("5/2", x.B), TinyTol) /\ VecCloseRel(SpecRaw("mvdr", x.V, R2, x.k, <<>>), VScale("5/2", x.C), TinyTol)
\* what sources add: covariances add up for Bartlett
Additive(x) == VecClose(x.B, Vec(G, LAMBDA j : NAdd(NMul(x.sg, x.n2[j]), NSum([i \in 1..x.k |-> NMul(x.p[i], Abs2(Dot(Col(x.V, j), Col(x.A, i))))]))), TinyTol)
Laws == LET x == Ctx IN
    /\ Law("CaponBelowBartlett", CaponBelowBartlett(x)) /\ Law("NoiseFloor", NoiseFloor(x)) /\ Law("CaponFloor", CaponFloor(x))
    /\ Law("CaponPower", CaponPower(x)) /\ Law("Nulls", Nulls(x)) /\ Law("MinNormBelow", MinNormBelow(x)) /\ Law("OnlyNulls", OnlyNulls(x))
    /\ Law("Scales", Scales(x)) /\ Law("Additive", Additive(x))
=============================================================================
