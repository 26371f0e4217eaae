------------------------------ MODULE MC_Bounds ------------------------------
(* P17, P18: arrays x perturbations x sources x powers x noise: the bounds    *)
(* derived from first principles agree with the published closed forms, with *)
(* each other's known order and with the known special cases.                *)
EXTENDS MC
CONSTANTS Music, Fine
\* ---- the catalogue (every array has 4 elements) ----
Arrs == << [op |-> "ula", n |-> 4, d0 |-> NumTok("0.5")], [op |-> "nested", n1 |-> 2, n2 |-> 2, d0 |-> NumTok("0.4")], [op |-> "gridarr", name |-> "m", idx |-> IntCol(<<0, 1, 4, 6>>), d0 |-> NumTok("0.5")],
           [op |-> "gridarr", name |-> "g", idx |-> IntCol(<<3, -1, 0, 1>>), d0 |-> NumTok("0.25")],
           [op |-> "uca", n |-> 4, r |-> NumTok("0.75")], [op |-> "custom", name |-> "c", loc |-> MatTok(4, 3, <<"0.25 -1 0.5", "1 0.5 -0.25", "-0.75 0.125 2", "0 0 0.125">>)] >>
LocP(d, known) == [ty |-> "loc", known |-> known, par |-> MatTok(4, d, [i \in 1..4 |-> RowOf([j \in 1..d |-> << <<"0.0625", "-0.125", "0.25">>, <<"-0.25", "0.5", "0.03125">>, <<"0", "0.125", "-0.0625">>, <<"0.125", "0.25", "0.5">> >>[i][j]])])]
GainP(known) == [ty |-> "gain", known |-> known, par |-> VecTok(4, "0.25 -0.5 0.125 0")]
PhaseP(known) == [ty |-> "phase", known |-> known, par |-> VecTok(4, "0.5 -1.25 3 0")]
McP(known) == [ty |-> "mc", known |-> known, par |-> CMatTok(4, 4, <<"1 0.25,0.125 0 0", "0.25,0.125 1 0.25,-0.5 0", "0 0.25,-0.5 1 0.25,0.125", "0 0 0.25,0.125 1">>)]
Perts == << <<GainP(FALSE)>>, <<LocP(1, TRUE), PhaseP(FALSE)>>, <<McP(FALSE), GainP(TRUE), LocP(2, FALSE)>> >>
Srcs == << [op |-> "ff1", v |-> VecTok(1, "0.3"), unit |-> "rad"], [op |-> "ff1", v |-> VecTok(2, "-30 20"), unit |-> "deg"], [op |-> "ff1", v |-> VecTok(2, "0.75 -0.125"), unit |-> "sin"] >>
Kof(s) == << 1, 2, 2 >>[s]
\* powers of one source and of two; the last two of two sources are correlated and coherent
Pw1 == << NumTok("2"), VecTok(1, "0.5"), CMatTok(1, 1, <<"4">>) >>
Pw2 == << NumTok("2"), VecTok(2, "0.5 3"), [t |-> "list", v |-> << NumTok("1.5"), NumTok("0.25") >>], CMatTok(2, 2, <<"2 0.5,0.75", "0.5,-0.75 1">>), CMatTok(2, 2, <<"2 1,1", "1,-1 1">>) >>
Pw(s, p) == IF Kof(s) = 1 THEN Pw1[p] ELSE Pw2[p]
Sgs == << "0.25", "4" >>
Cases == { x \in (1..Len(Arrs)) \X (0..Len(Perts)) \X (1..Len(Srcs)) \X (1..5) \X (1..2) :
             /\ x[4] <= (IF Kof(x[3]) = 1 THEN 3 ELSE 5)
             /\ (Fine \/ (x[1] + 2 * x[2] + x[3] + x[4] + 3 * x[5]) % 5 = 0) }
Ask(a, f, x) == [op |-> "bound", f |-> f, a |-> a, s |-> "s", wl |-> NumTok("1"), sg |-> NumTok(Sgs[x[5]])]
P(x) == [p |-> Pw(x[3], x[4])]
MatP(x) == [p |-> (IF Kof(x[3]) = 1 THEN CMatTok(1, 1, <<"0.5">>) ELSE CMatTok(2, 2, <<"2 0.5,0.75", "0.5,-0.75 1">>))]
Script(x) ==
    LET cop == [form |-> (IF x[5] = 1 THEN "dict" ELSE "list"), items |-> << GainP(TRUE), LocP(1, FALSE) >>]
        ar == Arrs[x[1]] @@ [out |-> "a"]
        real == IF x[2] = 0 THEN ar ELSE ar @@ [pert |-> [form |-> (IF x[5] = 1 THEN "list" ELSE "dict"), items |-> Perts[x[2]]]]
        fs == IF Music THEN << "music", "comusic" >> ELSE << "sto", "stouc", "det" >>
        pw(f) == IF f = "det" THEN MatP(x) ELSE P(x)
        full(a) == [i \in 1..Len(fs) |-> Ask(a, fs[i], x) @@ pw(fs[i]) @@ (IF a = "a" THEN [out |-> "o" \o Int2Str(i)] ELSE [n |-> 10])]
    IN << real, Srcs[x[3]] @@ [out |-> "s"] >> \o full("a") \o << [op |-> "pcopy", a |-> "a", pert |-> cop, out |-> "b"], [op |-> "fcopy", a |-> "a", out |-> "c"] >>
       \o full("b") \o << [op |-> "rpoke", x |-> "o1"] >> \o full("c")
       \o [i \in 1..Len(fs) |-> Ask("a", fs[i], x) @@ pw(fs[i]) @@ [mode |-> "diag", n |-> 100]]
       \o [i \in 1..Len(fs) |-> Ask("a", fs[i], x) @@ MatP(x) @@ [mode |-> "mean_diag"]]
       \o (IF Music THEN << Ask("a", "music", x) @@ P(x) @@ [which |-> "known"], Ask("a", "music", x) @@ P(x) @@ [which |-> "none"] >> ELSE <<>>)
       \o << [op |-> "aview", a |-> "a"] >>
Init == \E x \in Cases : CaseInit(Script(x))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

\* ---- laws (all computed from one context) ----
Ar == heap["a"]
Sr == heap["s"]
Q == hist[3]
k == NSrc(Sr)
sg == AsNum(Q.sg)
Pm == PowMat(Q.p, k)
Rel(X, Y) == MatCloseRel(X, Y, Tok("1e-9"))
\* A <= B between covariances, up to rounding: B - A + small has no negative eigenvalue (k <= 2)
Below(X, Y) == LET Z == MatSub(Y, X)  e == NMul(Tok("1e-9"), Trace(Y)) IN
    /\ \A i \in 1..k : Le(NNeg(e), Re(Z[i][i]))
    /\ k = 2 => Le(NMul(Z[1][2], Z[2][1]), NMul(NAdd(Z[1][1], e), NAdd(Z[2][2], e)))
Full == Lt(Tok("1e-9"), Abs(MatDet(Pm)))
A == Steer(Ar, Sr, Tok("1"), "all")
D == DSteer(Ar, Sr, Tok("1"), "all")
Laws17 ==
    LET A0 == TLCEval(A)  D0 == TLCEval(D) IN
    PosedNull(A0, D0) /\ PosedFim(FimSto(A0, D0, Pm, sg), k) =>
    LET sto == TLCEval(Block(FimSto(A0, D0, Pm, sg), k))
        det == TLCEval(DetClosed(A0, D0, Pm, sg))
        uc  == TLCEval(Block(FimStoUc(A0, D0, DiagOf(Pm), sg), k))
        stoD == TLCEval(Block(FimSto(A0, D0, DiagMat(Pm), sg), k))
    IN /\ Law("sto = closed form", Rel(sto, StoClosed(A0, D0, Pm, sg)))
       /\ Law("symmetric", Rel(sto, Trans(sto)) /\ Rel(uc, Trans(uc)))
       /\ Law("det below sto", Below(det, sto))
       /\ Law("uncorrelated below sto", Below(uc, stoD))
       \* noise and powers in proportion: the same bound
       /\ Law("only the ratio counts", Rel(sto, Block(FimSto(A0, D0, MatScale(3, Pm), NMul(3, sg)), k)))
       \* waveforms with this sample covariance: the Fisher information gives the closed form (waveforms: a factor of the powers)
       /\ Law("det = closed form", Full =>
             LET l11 == Sqrt(Re(Pm[1][1]))
                 L == IF k = 1 THEN << << l11 >> >>
                      ELSE LET l21 == NDiv(Pm[2][1], l11) IN << <<l11, Tok("0")>>, <<l21, Sqrt(NSub(Re(Pm[2][2]), Abs2(l21)))>> >>
                 X == MatScale(Sqrt(k), L)
             IN Rel(Block(FimDet(A0, D0, X, sg), k), det))
       \* a single source on a uniform linear array
       /\ Law("single source", (k = 1 /\ Ar.pert = <<>> /\ Q.a = "a" /\ hist[1].op = "ula") =>
             LET c == NMul(NMul(TwoPi, Tok("0.5")), CosRad(Sr.loc[1][1])) IN
             Rel(det, << << NDiv(NMul(6, sg), NMul(NMul(Re(Pm[1][1]), NMul(c, c)), 60)) >> >>))
Laws18 ==
    LET A0 == TLCEval(A)  D0 == TLCEval(D)
        ok == PosedNull(A0, D0) /\ Full
        mus == TLCEval(IF ok THEN MusicCov(A0, D0, Pm, sg) ELSE <<>>)
    IN /\ ok => /\ Law("music = closed form", Rel(mus, MusicClosed(A0, D0, Pm, sg)))
                /\ Law("music symmetric", Rel(mus, Trans(mus)))
                /\ Law("music above the bound", Below(StoClosed(A0, D0, Pm, sg), mus))
                /\ Law("music only the ratio counts", Rel(mus, MusicCov(A0, D0, MatScale(3, Pm), NMul(3, sg))))
       /\ (Ar.pert = <<>> /\ IsCoarrayArray(Ar)) =>
            LET v == VirtualUla(Ar, "")  Av == Steer(v, Sr, Tok("1"), "none")  Dv == DSteer(v, Sr, Tok("1"), "none")
                idx == IntIdx(Ar)  p == DiagOf(Pm)
                C == TLCEval(CoarrayCov(A0, Av, Dv, p, sg, idx))
                m == Reverse(idx)
            IN PosedNull(Av, Dv) =>
                 /\ Law("comusic symmetric positive", Rel(C, Trans(C)) /\ \A i \in 1..k : Lt(0, Re(C[i][i])))
                 /\ Law("comusic only the ratio counts", Rel(C, CoarrayCov(A0, Av, Dv, VScale(3, p), NMul(3, sg), idx)))
                 \* the order of the elements does not matter, nor does moving the array
                 /\ Law("comusic order of elements", Rel(C, CoarrayCov(Reverse(A0), Av, Dv, p, sg, m)))
                 /\ Law("comusic translation", Rel(C, CoarrayCov(A0, Av, Dv, p, sg, [i \in 1..Len(idx) |-> idx[i] + 7])))
                 \* no unbiased estimator beats the bound for uncorrelated sources
                 /\ Law("comusic above the bound", Below(Block(FimStoUc(A0, D0, p, sg), k), C))
Laws == IF Music THEN Laws18 ELSE Laws17
=============================================================================
