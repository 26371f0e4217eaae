------------------------------- MODULE MC_ML -------------------------------
(* P19: all short histories of a maximum-likelihood estimator: problems of    *)
(* several covariances, kinds and numbers of sources, calls that are rejected *)
(* or stop early, reads of the last estimates, and writes by the caller to    *)
(* what it gave and got.                                                     *)
EXTENDS MC
CONSTANTS Kind, Depth
Pert == [form |-> "dict", items |-> << [ty |-> "gain", known |-> TRUE, par |-> VecTok(4, "0.25 -0.5 0.125 0")], [ty |-> "loc", known |-> FALSE, par |-> MatTok(4, 1, <<"0.125", "-0.0625", "0", "0.25">>)] >>]
Kname == << "aml", "cml", "wsf" >>[Kind]
Setup == << [op |-> "ula", n |-> 4, d0 |-> NumTok("0.5"), pert |-> Pert, out |-> "a"],
            [op |-> "ff1", v |-> VecTok(1, "20"), unit |-> "deg", out |-> "x"], [op |-> "ff1", v |-> VecTok(2, "25 -40"), unit |-> "deg", out |-> "y"],
            [op |-> "ff2", v |-> MatTok(1, 2, <<"1.2 0.25">>), unit |-> "rad", out |-> "z"], [op |-> "ff1", v |-> VecTok(4, "-50 -10 10 50"), unit |-> "deg", out |-> "big"],
            [op |-> "idealcov", a |-> "a", s |-> "y", wl |-> NumTok("1"), p |-> VecTok(2, "2 1"), sg |-> NumTok("0.25"), out |-> "P"],
            [op |-> "wishart", R |-> Ref("P"), n |-> 20, seed |-> 5, out |-> "R"],
            [op |-> "mkcov", out |-> "Q", l |-> VecTok(4, "0.3 0.5 4 7"), seed |-> 12, real |-> FALSE],
            [op |-> "mkml", k |-> Kname, a |-> "a", wl |-> NumTok("1"), out |-> "e"] >>
NS == Len(Setup)
Out == "o" \o Int2Str(Len(hist))
Prev == "o" \o Int2Str(Len(hist) - 1)
Solve(R, s) == [op |-> "mlest", e |-> "e", R |-> Ref(R), s0 |-> s]
Commands ==
    { Solve(R, s) @@ [out |-> Out] : R \in {"R", "Q"}, s \in { q \in {"x", "y", "z"} : heap[q].t = "src" } }
    \cup { Solve("Q", "x") @@ [maxiter |-> 1, out |-> Out], Solve("R", "big"), [op |-> "mlest", e |-> "e", R |-> MatTok(3, 3, <<"1 0 0", "0 2 0", "0 0 1">>), s0 |-> "x"],
           [op |-> "mllast", e |-> "e"] @@ (IF heap["e"].last.t = "never" THEN [o |-> 0] ELSE [out |-> Out]), [op |-> "spoke", s |-> "y"] }
    \cup (IF Prev \in DOMAIN heap THEN {[op |-> "rpoke", x |-> Prev]} ELSE {})
Closing == << Solve("R", "x") @@ [out |-> "w1"], [op |-> "mllast", e |-> "e"], Solve("Q", "x") @@ [out |-> "w2"], [op |-> "aview", a |-> "a"] >>
Init == StartWith(Setup)
Next == Len(hist) < NS + Depth /\ \E c \in Commands : Walk(c, NS, Depth, Closing)
Spec == Init /\ [][Next]_<<heap, hist>>
Last0 == heap["e"].last
\* only estimations change the estimator, rejected ones do not; the rest of its parameters never change
Rejected0 == [][(Lst.op = "mlest" /\ (Lst.s0 = "big" \/ Lst.R.t # "ref")) => heap'["e"] = heap["e"]]_<<heap, hist>>
OnlyEst == [][(heap'["e"] # heap["e"]) => Lst.op = "mlest"]_<<heap, hist>>
Parameters == [][LET f == heap["e"]  g == heap'["e"] IN f.a = g.a /\ f.wl = g.wl /\ f.k = g.k]_<<heap, hist>>
\* once there were estimates, there are always some
Forever == [][(heap["e"].last.t # "never") => heap'["e"].last.t # "never"]_<<heap, hist>>
=============================================================================
