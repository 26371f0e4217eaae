----------------------------- MODULE MC_SelfTest -----------------------------
(* The operators of Num that Java evaluates, against their definitions: the  *)
(* field, its order, roots and elementary functions on a set of numbers, and *)
(* the matrix operators on every small matrix.                               *)
EXTENDS Utils
CONSTANTS N, W
VARIABLES q
Numbers == { "0", "1", "-1", "2", "-3/7", "0.1", "1e-20", "12345678901234567890", "0,1", "1/3,-2", "-0.5,0.25" }
Reals0 == { x \in Numbers : NEq(Im(x), 0) }
Shapes2 == { s \in (1..N) \X (1..N) : s[1] * s[2] <= W }
Ent == << "0", "1", "-2", "0,1", "1/2,-3" >>
Mats2(s, k) == { [i \in 1..s[1] |-> [j \in 1..s[2] |-> Tok(Ent[f[(i-1) * s[2] + j]])]] : f \in [1..(s[1] * s[2]) -> 1..k] }
Init == \/ \E a, b, c \in Numbers : q = <<"num", a, b, c>>
        \/ \E s \in Shapes2 : \E k \in 1..N : s[2] * k <= W /\ \E A \in Mats2(s, 3) : \E B \in Mats2(<<s[2], k>>, IF s[1] * s[2] + s[2] * k > 6 THEN 2 ELSE 3) : q = <<"mul", A, B>>
        \/ \E n \in 1..N : \E A \in Mats2(<<n, n>>, IF n > 2 THEN 2 ELSE 5) : q = <<"inv", A>>
        \/ \E i \in 0..24 : q = <<"fun", i>>
Next == FALSE /\ UNCHANGED q
Spec == Init /\ [][Next]_q
TinyNum == Tok("1e-60")
Same0(a, b) == NEq(a, b) \/ (~IsFin(a) /\ ~IsFin(b))
Numerals == q[1] = "num" => LET a == q[2]  b == q[3]  c == q[4] IN
    /\ NEq(NAdd(a, b), NAdd(b, a)) /\ NEq(NMul(a, b), NMul(b, a))
    /\ NEq(NAdd(a, NAdd(b, c)), NAdd(NAdd(a, b), c)) /\ NEq(NMul(a, NMul(b, c)), NMul(NMul(a, b), c))
    /\ NEq(NMul(a, NAdd(b, c)), NAdd(NMul(a, b), NMul(a, c)))
    /\ NEq(NSub(a, b), NAdd(a, NNeg(b))) /\ NEq(NAdd(a, NNeg(a)), 0) /\ NEq(NMul(1, a), a)
    /\ (NEq(b, 0) => ~IsFin(NDiv(a, b))) /\ (~NEq(b, 0) => NEq(NMul(b, NDiv(a, b)), a))
    /\ NEq(a, Cplx(Re(a), Im(a))) /\ NEq(Conj(a), Cplx(Re(a), NNeg(Im(a)))) /\ NEq(Abs2(a), Re(NMul(a, Conj(a))))
    /\ NEq(NMul("0,1", "0,1"), -1)
    /\ NEq(NSum(<<a, b, c>>), NAdd(a, NAdd(b, c))) /\ NEq(DotU(<<a, b>>, <<b, c>>), NAdd(NMul(a, b), NMul(b, c)))
    /\ CloseTo(NMul(Abs(a), Abs(a)), Abs2(a), 0, TinyNum)
    /\ a \in Reals0 /\ b \in Reals0 =>
         /\ Lt(a, b) = (Le(a, b) /\ ~NEq(a, b)) /\ (Le(a, b) \/ Le(b, a)) /\ (Le(a, b) /\ Le(b, a) => NEq(a, b))
         /\ Le(a, b) = Le(0, NSub(b, a))
         /\ (c \in Reals0 /\ Le(a, b) /\ Le(b, c)) => Le(a, c)
         /\ Le(NFloor(a), a) /\ Lt(a, NAdd(NFloor(a), 1)) /\ NEq(NFloor(NFloor(a)), NFloor(a))
         /\ (Le(0, a) => CloseTo(NMul(Sqrt(a), Sqrt(a)), a, 0, TinyNum)) /\ (Lt(a, 0) => ~IsFin(Sqrt(a)))
    /\ CloseTo(a, b, 1, 0) = Le(Abs(NSub(a, b)), 1)
    /\ ~Lt(a, "nan") /\ ~Le("nan", a) /\ ~NEq("nan", "nan") /\ ~IsFin(NAdd(a, "inf"))
Functions0 == q[1] = "fun" => LET t == NDiv(q[2], 12)  x == NSub(t, 1)  y == NDiv(q[2] + 1, 5) IN
    /\ CloseTo(Abs2(CisTurn(t)), 1, TinyNum, 0) /\ CloseTo(CisTurn(t), CisRad(NMul(NMul(2, Pi), t)), TinyNum, 0)
    /\ CloseTo(NMul(CisTurn(t), CisTurn(x)), CisTurn(NAdd(t, x)), TinyNum, 0)
    /\ CloseTo(Pow(CisTurn(NDiv(1, 12)), q[2]), CisTurn(t), TinyNum, 0)
    /\ CloseTo(NMul(Exp(t), Exp(x)), Exp(NAdd(t, x)), 0, TinyNum) /\ CloseTo(Log(Exp(x)), x, TinyNum, 0) /\ CloseTo(Exp(Log(y)), y, 0, TinyNum)
    /\ CloseTo(Log(NMul(y, 3)), NAdd(Log(y), Log(3)), TinyNum, 0)
    /\ CloseTo(Pi, "3.14159265358979311599796346854", "2e-16", 0) /\ Lt(Tok("3141592653589793238/1000000000000000000"), Pi) /\ Lt(Pi, Tok("3141592653589793239/1000000000000000000"))
    /\ CloseTo(NDiv(NSub(Exp(NDiv(x, 1000000)), 1), NDiv(x, 1000000)), 1, Tok("1e-5"), 0) \/ NEq(x, 0)
Products == q[1] = "mul" => LET A == q[2]  B == q[3]  C == MatMul(A, B) IN
    /\ Shape(C) = <<Rows(A), Cols(B)>> /\ \A i \in 1..Rows(C) : \A j \in 1..Cols(C) : NEq(C[i][j], MatMulDef(A, B)[i][j])
    /\ NEq(MatDist(A, MatScale(2, A)), NMaxSeq(<<Tok("0")>> \o [i \in 1..(Rows(A) * Cols(A)) |-> Abs(VecOf(A)[i])]))
    /\ (Shape(A) # Shape(B) => NEq(MatDist(A, B), -1))
\* determinant by expansion along the first row
RECURSIVE DetDef(_)
DetDef(A) == IF Len(A) = 1 THEN A[1][1]
             ELSE NSum([j \in 1..Len(A) |-> NMul(IF j % 2 = 1 THEN 1 ELSE -1, NMul(A[1][j], DetDef([i \in 1..(Len(A)-1) |-> RemoveAt(A[i+1], j)])))])
Inverses == q[1] = "inv" => LET A == q[2]  n == Len(A)  B == MatInv(A) IN
    /\ NEq(MatDet(A), DetDef(A))
    /\ (B = <<>>) = NEq(DetDef(A), 0)
    /\ B # <<>> => \A C \in {MatMulDef(A, B), MatMulDef(B, A)} : \A i, j \in 1..n : NEq(C[i][j], IF i = j THEN 1 ELSE 0)
=============================================================================
