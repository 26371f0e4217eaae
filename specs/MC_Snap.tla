------------------------------- MODULE MC_Snap -------------------------------
(* P16: all short histories of snapshots from generators of the caller that  *)
(* are shared between arrays and sources: a generator is read once per call, *)
(* for as many snapshots as were asked for, and nothing else moves it.       *)
EXTENDS MC
CONSTANTS Cfg, Depth
Pert == [form |-> "dict", items |-> << [ty |-> "gain", known |-> TRUE, par |-> VecTok(3, "0.25 -0.5 0.125")], [ty |-> "phase", known |-> FALSE, par |-> VecTok(3, "0.5 -0.25 0")],
                                       [ty |-> "loc", known |-> FALSE, par |-> MatTok(3, 1, <<"0.125", "-0.0625", "0">>)] >>]
Arrays0 == CASE Cfg = 1 -> << [op |-> "ula", n |-> 3, d0 |-> NumTok("0.5"), out |-> "a"], [op |-> "pcopy", a |-> "a", out |-> "b", pert |-> Pert] >>
             [] Cfg = 2 -> << [op |-> "ula", n |-> 3, d0 |-> NumTok("0.5"), el |-> "vec2", out |-> "a"], [op |-> "ula", n |-> 6, d0 |-> NumTok("0.25"), out |-> "b"] >>
Outs0 == IF Cfg = 1 THEN 3 ELSE 6
Sig(d, rows, t, buf, out) == [op |-> "mksig", k |-> "fix", dim |-> d, par |-> CMatTok(d, t, rows), buf |-> buf, out |-> out]
NoiseRows == << "1 0.5 0,-1", "0 -2 0.25,0.5", "0,1 0 4", "-1 2 0", "0,0.5 1 -0.125", "3 0 0,2" >>
Setup == Arrays0 \o << [op |-> "ff1", v |-> VecTok(2, "20 -35"), unit |-> "deg", out |-> "s"],
           IF Cfg = 1 THEN [op |-> "nf2", v |-> MatTok(2, 2, <<"0.5 4", "-3 6">>), out |-> "u"] ELSE [op |-> "ff2", v |-> MatTok(2, 2, <<"0.5 0.25", "-1 0.75">>), unit |-> "rad", out |-> "u"],
           Sig(2, << "1 0,1 -0.5 2", "0.25 -1 0,2 1,1" >>, 4, FALSE, "x"), Sig(2, << "2 -1 0", "0,1 0 0.5,-0.5" >>, 3, TRUE, "y"),
           Sig(Outs0, SubSeq(NoiseRows, 1, Outs0), 3, TRUE, "w") >>
NS == Len(Setup)
Out == "o" \o Int2Str(Len(hist))
Prev == "o" \o Int2Str(Len(hist) - 1)
Snap(a, s, src) == [op |-> "snap", a |-> a, s |-> s, wl |-> NumTok("1"), src |-> src, out |-> Out]
N(n) == [n |-> n]
Noise == [noise |-> "w"]
Cov == [cov |-> TRUE]
Commands ==
    { Snap("a", "s", "x"), Snap("a", "s", "x") @@ N(3) @@ Noise @@ Cov, Snap("b", "u", "x") @@ N(2) @@ Noise, Snap("b", "s", "y") @@ N(4) @@ Cov, Snap("a", "u", "y") @@ N(2) @@ Noise @@ Cov,
      [op |-> "emit", g |-> "x", n |-> 2, out |-> Out], [op |-> "emit", g |-> "w", n |-> 2] }
    \cup (IF Prev \in DOMAIN heap /\ heap[Prev].t = "foreseen" THEN {[op |-> "rpoke", x |-> Prev]} ELSE {})
\* what does not fit together
Misfits == { [op |-> "snap", a |-> "a", s |-> "s", wl |-> NumTok("1"), src |-> "w", n |-> 2], [op |-> "snap", a |-> "a", s |-> "s", wl |-> NumTok("1"), src |-> "x", noise |-> "y", n |-> 1] }
Closing == << [op |-> "snap", a |-> "b", s |-> "s", wl |-> NumTok("0.5"), src |-> "y", noise |-> "w", n |-> 3, cov |-> TRUE], [op |-> "snap", a |-> "a", s |-> "u", wl |-> NumTok("2"), src |-> "x"],
              [op |-> "aview", a |-> "a"], [op |-> "aview", a |-> "b"] >>
Init == StartWith(Setup)
\* a misfit comes last: how far the generators were read then is not said
Next == Len(hist) < NS + Depth /\ \/ \E c \in Commands : Walk(c, NS, Depth, Closing)
                                  \/ Len(hist) = NS + Depth - 1 /\ \E c \in Misfits : Walk(c, NS, Depth, <<Closing[3], Closing[4]>>)
Spec == Init /\ [][Next]_<<heap, hist>>

Gens == {"x", "y", "w"}
AskedOf(c, g) == IF c.op = "emit" THEN (IF c.g = g THEN c.n ELSE 0) ELSE IF c.op # "snap" \/ c \in Misfits THEN 0
                 ELSE IF c.src = g \/ Opt(c, "noise", "") = g THEN Opt(c, "n", 1) ELSE 0
\* how far a generator was read is the number of snapshots it was asked for
Position == \A g \in Gens : heap[g].pos = SeqSum([i \in 1..Len(hist) |-> IF hist[i].op \in {"snap", "emit"} THEN AskedOf(hist[i], g) ELSE 0])
OnlyNamed == [][\A x \in DOMAIN heap : heap'[x] # heap[x] => x \in MayChange(Lst) \/ (Lst.op \in {"snap", "emit"} /\ x \in Gens /\ AskedOf(Lst, x) > 0)]_<<heap, hist>>
Foreseen == { x \in DOMAIN heap : heap[x].t = "foreseen" }
\* sample covariances are Hermitian, of a rank no higher than the number of snapshots, with the mean power on the diagonal
CovLaw == \A x \in Foreseen : LET Y == heap[x].Y  R == SampleCov(Y) IN
    /\ Law("Hermitian", MatClose(R, Herm(R), 0))
    /\ Law("rank", Cols(Y) < Rows(Y) => Le(Abs(MatDet(SubRows(SubCols(R, Iota(Cols(Y) + 1)), Iota(Cols(Y) + 1)))), Tok("1e-30")))
    /\ Law("power", \A i \in 1..Rows(Y) : Le(0, Re(R[i][i])) /\ CloseTo(NMul(Cols(Y), R[i][i]), NSum([t \in 1..Cols(Y) |-> Abs2(Y[i][t])]), Tok("1e-30"), 0))
\* snapshots are memoryless and linear in what the generators return
SnapLaw == Len(hist) = NS => \A a \in {"a", "b"} : \A s \in {"s", "u"} : \A wl \in {Tok("1"), Tok("1/2")} :
    LET X == heap["x"].par  W == SubCols(heap["w"].par, <<1, 2, 3, 1>>)  Y == Snapshots(heap[a], heap[s], wl, X, W) IN
    /\ Law("batches", \A t \in 1..Cols(X) : MatClose(SubCols(Y, <<t>>), Snapshots(heap[a], heap[s], wl, SubCols(X, <<t>>), SubCols(W, <<t>>)), Tok("1e-30")))
    /\ Law("superposition", MatClose(Y, MatAdd(MatAdd(Snapshots(heap[a], heap[s], wl, Mat(2, 4, LAMBDA i, j : IF i = 1 THEN X[i][j] ELSE 0), <<>>),
                                                    Snapshots(heap[a], heap[s], wl, Mat(2, 4, LAMBDA i, j : IF i = 2 THEN X[i][j] ELSE 0), <<>>)), W), Tok("1e-30")))
=============================================================================
