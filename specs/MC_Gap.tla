------------------------------- MODULE MC_Gap -------------------------------
(* P20: the certificates that judge solutions.  On every small problem, the  *)
(* gap of a candidate bounds how much better any other candidate is, it      *)
(* vanishes at the solutions known in closed form, and a certificate of      *)
(* infeasibility means what it says.                                         *)
EXTENDS Sparse
CONSTANTS V, W         \* entries -V .. V of the matrices, -W .. W of the data and the candidates
VARIABLES q
Ints(n) == (-n)..n
Half2(n) == NDiv(n, 2)
MatI(f, m, n) == [i \in 1..m |-> [j \in 1..n |-> Tok(Int2Str(f[(i-1) * n + j]))]]
VecI(f, n) == [i \in 1..n |-> Half2(f[i])]
Cands(n) == { VecI(f, n) : f \in [1..n -> Ints(W)] }
Lambdas == { Tok("1/4"), Tok("1"), Tok("5/2") }
Init == \/ \E f \in [1..4 -> Ints(V)] : \E b \in [1..2 -> Ints(W)] : \E l \in Lambdas : \E nn \in BOOLEAN : q = <<"l1", MatI(f, 2, 2), VecI(b, 2), l, nn>>
        \/ \E f \in [1..2 -> Ints(V)] : \E b \in [1..2 -> Ints(W)] : \E l \in Lambdas : q = <<"l21", MatI(f, 2, 1), VecI(b, 2), l>>
Next == FALSE /\ UNCHANGED q
Spec == Init /\ [][Next]_q
L1q == q[1] = "l1"
A == q[2]
b == q[3]
l == q[4]
nn == q[5]
Feasible == { x \in Cands(2) : nn => \A i \in 1..2 : Le(0, x[i]) }
Slack == Tok("1e-40")
Bounds0(S, f(_), gap(_)) == \A x \in S : LET g == gap(x) IN Le(NNeg(Slack), g) /\ \A y \in S : Le(NSub(f(x), f(y)), NAdd(g, Slack))
Least(x) == NAdd(NMul(Half, Norm2(Resid(A, b, x))), NMul(l, L1(x)))
Penalised == L1q => Bounds0(Feasible, Least, LAMBDA x : GapPenalised(A, b, l, nn, x))
Constrained1 == L1q => Bounds0({ x \in Feasible : Le(L1(x), l) }, LAMBDA x : Norm2(Resid(A, b, x)), LAMBDA x : GapConstrained1(A, b, l, nn, x))
Constrained2 == L1q => Bounds0({ x \in Feasible : Le(Norm(Resid(A, b, x)), l) }, L1, LAMBDA x : GapConstrained2(A, b, l, nn, x))
NoWay == L1q => \A u \in Cands(2) : Infeasible(A, b, l, nn, u) => \A x \in Feasible : Lt(l, Norm(Resid(A, b, x)))
\* soft thresholding solves the separable problem
Soft(x, t) == IF Lt(t, x) THEN NSub(x, t) ELSE IF Lt(x, NNeg(t)) THEN NAdd(x, t) ELSE Tok("0")
Known == (L1q /\ \A i, j \in 1..2 : NEq(A[i][j], IF i = j THEN 1 ELSE 0)) =>
    /\ LET x == [i \in 1..2 |-> IF nn THEN Pos(NSub(b[i], l)) ELSE Soft(b[i], l)] IN Le(GapPenalised(A, b, l, nn, x), Slack)
    /\ L1Verdict("penalizedl1", A, b, l, nn, [i \in 1..2 |-> IF nn THEN Pos(NSub(b[i], l)) ELSE Soft(b[i], l)], <<>>, Tok("1e-4")) = ""
    \* and nothing far from it is accepted
    /\ \A x \in Feasible : L1Verdict("penalizedl1", A, b, l, nn, x, <<>>, Tok("1e-4")) = "" => \A y \in Feasible : Le(Least(x), NAdd(Least(y), NMul(Tok("1e-3"), NAdd(1, Norm2(b)))))
\* one row group: two data columns
B == << <<b[1], b[2]>>, <<NNeg(b[2]), Cplx(b[1], b[2])>> >>
Rows1 == { << <<x[1], Cplx(x[2], x[1])>> >> : x \in Cands(2) }
Group(X) == NAdd(NMul(Half, Frob2(MatSub(B, MatMul(A, X)))), NMul(l, NSum(RowLens(X))))
Grouped == ~L1q =>
    /\ Bounds0(Rows1, Group, LAMBDA X : GapL21(A, B, l, X))
    \* the solution of one group in closed form, from its row length alone too
    /\ LET h == MatMul(Herm(A), B)  s == Frob2(A)  t == Norm(h[1])
           X == IF NEq(s, 0) \/ Le(t, l) THEN MatScale(0, h) ELSE MatScale(NDiv(NSub(t, l), NMul(t, s)), h) IN
       /\ Le(GapL21(A, B, l, X), Slack)
       /\ MatClose(FromRowLens(A, B, l, RowLens(X)), X, Slack)
=============================================================================
