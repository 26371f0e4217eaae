------------------------------ MODULE MC_Sparse ------------------------------
(* P20: all short histories of reused sparse recovery problems and           *)
(* estimators: solutions for other data and parameters, calls that are       *)
(* rejected or have no solution, and writes to what was returned.  A problem *)
(* has no state in the specification, so paths are enumerated.               *)
EXTENDS MC
CONSTANTS Kind, Depth
Form == IF Kind \in {1, 2} THEN "penalizedl1" ELSE IF Kind \in {3, 4} THEN "constrainedl1" ELSE IF Kind \in {5, 6} THEN "constrainedl2" ELSE ""
L1Kind == Kind \in 1..6
Nn == Kind % 2 = 0
Q == IF L1Kind THEN 1 ELSE 2
Cx == Kind = 8
Rm(rows, n) == MatTok(Len(rows), n, rows)
Mc(rows, n) == CMatTok(Len(rows), n, rows)
Prob == IF L1Kind THEN [op |-> "mkprob", k |-> "l1", m |-> 2, n |-> 3, form |-> Form, nn |-> Nn, out |-> "p"] ELSE [op |-> "mkprob", k |-> "l21", m |-> 2, n |-> 3, q |-> 2, cx |-> Cx, out |-> "p"]
Setup12 == << [op |-> "val", out |-> "A", v |-> Rm(<<"1 0.5 -0.25", "0 1 2">>, 3)],
              [op |-> "val", out |-> "C", v |-> IF Cx THEN Mc(<<"0,1 1 0.5", "2 0.5,-0.5 1">>, 3) ELSE Rm(<<"-1 0.25 1", "0.5 0.5 1">>, 3)],
              [op |-> "val", out |-> "b", v |-> IF Q = 1 THEN Rm(<<"2", "-1.5">>, 1) ELSE Rm(<<"2 0.5", "-1.5 1">>, 2)],
              [op |-> "val", out |-> "d", v |-> IF Q = 1 THEN Rm(<<"-3", "1">>, 1) ELSE IF Cx THEN Mc(<<"1,1 0", "0.5 -2,0.5">>, 2) ELSE Rm(<<"-3 0", "1 0.25">>, 2)], Prob >>
\* estimators: one of each kind on a shared array and grid
Setup3 == << [op |-> "ula", n |-> 3, d0 |-> NumTok("0.5"), out |-> "a"], [op |-> "g1", unit |-> "deg", start |-> NumTok("-60"), stop |-> NumTok("60"), size |-> IntV(7), out |-> "g"],
             [op |-> "mksparse", k |-> "scm", a |-> "a", g |-> "g", wl |-> NumTok("1"), known |-> (Kind = 9), form |-> (IF Kind = 11 THEN "constrainedl2" ELSE "penalizedl1"), out |-> "e"],
             [op |-> "mksparse", k |-> "gse", a |-> "a", g |-> "g", wl |-> NumTok("1"), q |-> 2, out |-> "f"],
             [op |-> "mkcov", out |-> "R", l |-> VecTok(3, "0.5 1 7"), seed |-> 11, real |-> FALSE], [op |-> "mkcov", out |-> "S", l |-> VecTok(3, "0.3 2 4"), seed |-> 12, real |-> FALSE],
             [op |-> "ff1", v |-> VecTok(1, "20"), unit |-> "deg", out |-> "s"],
             [op |-> "mkdata", a |-> "a", s |-> "s", wl |-> NumTok("1"), q |-> 2, sd |-> NumTok("0.25"), seed |-> 5, out |-> "Y"] >>
Setup == IF Kind <= 8 THEN Setup12 ELSE Setup3
NS == Len(Setup)
Out == "o" \o Int2Str(Len(hist))
Prev == "o" \o Int2Str(Len(hist) - 1)
Solve(A, b, l) == [op |-> "solve", p |-> "p", A |-> Ref(A), b |-> Ref(b), l |-> NumTok(l), solver |-> "CLARABEL", out |-> Out]
Est(e, R, l) == [op |-> "spest", e |-> e, R |-> Ref(R), n |-> 1, l |-> NumTok(l), solver |-> "CLARABEL", out |-> Out]
Sg == [sigma |-> NumTok("0.5")]
Sp == [spec |-> TRUE]
Commands ==
    IF Kind <= 8
    THEN { Solve("A", "b", "0.5"), Solve("C", "d", "1.5"), Solve("A", "d", "0.75"), Solve("A", "b", "4"), Solve("A", "b", "-1"),
           [Solve("A", "b", "0.5") EXCEPT !.A = Rm(<<"1 0", "0 1">>, 2)], [Solve("A", "b", "0.5") EXCEPT !.b = Rm(<<"1", "2", "3">>, 1)],
           [Solve("A", "b", "0.5") EXCEPT !.b = Mc((IF Q = 1 THEN <<"1,1", "0,2">> ELSE <<"1,1 0", "0,2 1">>), Q)] }
         \cup (IF Prev \in DOMAIN heap /\ heap[Prev].t # "junk" THEN {[op |-> "rpoke", x |-> Prev]} ELSE {})
    ELSE { Est("e", "R", "2") @@ Sg @@ Sp, Est("e", "S", "3") @@ Sg, Est("f", "Y", "1.5") @@ Sp, Est("f", "Y", "6"), Est("e", "R", "-1") @@ Sg, Est("e", "Y", "1") @@ Sg, Est("f", "R", "1"),
           [op |-> "refill", out |-> "R", l |-> VecTok(3, "0.2 0.6 9"), seed |-> 13, real |-> FALSE], Est("e", "R", "0.01") @@ Sg @@ Sp, Est("e", "S", "1") }
         \cup (IF Prev \in DOMAIN heap /\ heap[Prev].t # "junk" /\ hist[Len(hist)].op = "spest" THEN {[op |-> "rpoke", x |-> Prev]} ELSE {})
Closing == IF Kind <= 8 THEN << Solve("C", "b", "1") @@ [out |-> "z"] >>
           ELSE << [op |-> "spest", e |-> "e", R |-> Ref("S"), n |-> 2, l |-> NumTok("2.5"), sigma |-> NumTok("0.25"), spec |-> TRUE, solver |-> "CLARABEL"], [op |-> "aview", a |-> "a"], [op |-> "gview", g |-> "g"] >>
Init == StartWith(Setup)
Next == Len(hist) < NS + Depth /\ \E c \in Commands : Walk(c, NS, Depth, Closing)
Spec == Init /\ [][Next]_<<heap, hist>>
Stateless == [][\A x \in {"p", "a", "g", "e", "f", "A", "C", "b", "d"} \cap DOMAIN heap : heap'[x] = heap[x]]_<<heap, hist>>
=============================================================================
