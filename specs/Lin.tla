-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Vectors (sequences of numbers) and matrices (sequences of rows) over    *)
(* the complex numbers of Num.                                             *)
(***************************************************************************)
EXTENDS Num, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Rows(A)   == Len(A)
Cols(A)   == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Shape(A)  == <<Rows(A), Cols(A)>>
\* evaluated once: TLC otherwise re-evaluates a function body at every application
Vec(n, F(_))       == TLCEval([i \in 1..n |-> F(i)])
Mat(m, n, F(_, _)) == TLCEval([i \in 1..m |-> [j \in 1..n |-> F(i, j)]])
Row(A, i) == A[i]
Col(A, j) == [i \in 1..Rows(A) |-> A[i][j]]

MatMulDef(A, B) == Mat(Rows(A), Cols(B), LAMBDA i, j : NSum([k \in 1..Rows(B) |-> NMul(A[i][k], B[k][j])]))

MatAdd(A, B)  == Mat(Rows(A), Cols(A), LAMBDA i, j : NAdd(A[i][j], B[i][j]))
MatSub(A, B)  == Mat(Rows(A), Cols(A), LAMBDA i, j : NSub(A[i][j], B[i][j]))
MatScale(c, A) == Mat(Rows(A), Cols(A), LAMBDA i, j : NMul(c, A[i][j]))
Trans(A)      == Mat(Cols(A), Rows(A), LAMBDA i, j : A[j][i])
Herm(A)       == Mat(Cols(A), Rows(A), LAMBDA i, j : Conj(A[j][i]))
MatConj(A)    == Mat(Rows(A), Cols(A), LAMBDA i, j : Conj(A[i][j]))
MatRe(A)      == Mat(Rows(A), Cols(A), LAMBDA i, j : Re(A[i][j]))
MatIm(A)      == Mat(Rows(A), Cols(A), LAMBDA i, j : Im(A[i][j]))
Hadamard(A, B) == Mat(Rows(A), Cols(A), LAMBDA i, j : NMul(A[i][j], B[i][j]))
Ident(n)      == Mat(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Diag(v)       == Mat(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE 0)
DiagOf(A)     == Vec(Rows(A), LAMBDA i : A[i][i])
ZeroMat(m, n) == Mat(m, n, LAMBDA i, j : 0)
Trace(A)      == NSum([i \in 1..Rows(A) |-> A[i][i]])
ColVec(v)     == Vec(Len(v), LAMBDA i : <<v[i]>>)
MatVec(A, v)  == Vec(Rows(A), LAMBDA i : DotU(A[i], v))
Dot(u, v)     == DotU([i \in 1..Len(u) |-> Conj(u[i])], v)            \* u^H v
Norm2(v)      == NSum([i \in 1..Len(v) |-> Abs2(v[i])])               \* ||v||^2
Norm(v)       == Sqrt(Norm2(v))
VAdd(u, v)    == Vec(Len(u), LAMBDA i : NAdd(u[i], v[i]))
VSub(u, v)    == Vec(Len(u), LAMBDA i : NSub(u[i], v[i]))
VScale(c, v)  == Vec(Len(v), LAMBDA i : NMul(c, v[i]))
QForm(v, A)   == Dot(v, MatVec(A, v))                                 \* v^H A v
Frob2(A)      == NSum([i \in 1..Rows(A) |-> Norm2(A[i])])
SubRows(A, S) == Vec(Len(S), LAMBDA i : A[S[i]])                       \* S: sequence of row numbers
SubCols(A, S) == Mat(Rows(A), Len(S), LAMBDA i, j : A[i][S[j]])
HStack(A, B)  == Vec(Rows(A), LAMBDA i : A[i] \o B[i])
\* column-major vectorisation, as in vec(R)
VecOf(A)      == Vec(Rows(A) * Cols(A), LAMBDA k : A[((k-1) % Rows(A)) + 1][((k-1) \div Rows(A)) + 1])
UnVec(v, m, n) == Mat(m, n, LAMBDA i, j : v[(j-1)*m + i])
\* Kronecker and column-wise Khatri-Rao products
Kron(A, B)    == Mat(Rows(A)*Rows(B), Cols(A)*Cols(B), LAMBDA i, j :
                    NMul(A[((i-1) \div Rows(B)) + 1][((j-1) \div Cols(B)) + 1],
                         B[((i-1) % Rows(B)) + 1][((j-1) % Cols(B)) + 1]))
KhatriRao(A, B) == Mat(Rows(A)*Rows(B), Cols(A), LAMBDA i, j :
                    NMul(A[((i-1) \div Rows(B)) + 1][j], B[((i-1) % Rows(B)) + 1][j]))
Inv(A)        == MatInv(A)
Singular(A)   == MatInv(A) = <<>>
\* A (A^H A)^-1 A^H, projector on the column space (full column rank)
Projector(A)  == MatMul(A, MatMul(Inv(MatMul(Herm(A), A)), Herm(A)))
PInv(A)       == MatMul(Inv(MatMul(Herm(A), A)), Herm(A))
Complement(P) == MatSub(Ident(Rows(P)), P)
IsHermitian(A, tol) == Rows(A) = Cols(A) /\ Le(MatDist(A, Herm(A)), tol)

MaxAbs(A)     == LET Z == ZeroMat(Rows(A), Cols(A)) IN MatDist(A, Z)
\* |X - Y| <= tol * max(1, |Y|), same shape, everything finite
MatClose(X, Y, tol) ==
    LET d == MatDist(X, Y) IN Ge(d, 0) /\ Le(d, NMul(tol, NMax(1, MaxAbs(Y))))
\* as MatClose, but relative to the size of Y only
MatCloseRel(X, Y, tol) ==
    LET d == MatDist(X, Y) IN Ge(d, 0) /\ Le(d, NMul(tol, MaxAbs(Y)))
VecClose(x, y, tol) == MatClose(<<x>>, <<y>>, tol)
VecCloseRel(x, y, tol) == MatCloseRel(<<x>>, <<y>>, tol)
\* entry by entry |x-y| <= atol + rtol |y|
VecCloseAR(x, y, at, rt) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : CloseTo(x[i], y[i], at, rt)
MatCloseAR(X, Y, at, rt) == Len(X) = Len(Y) /\ \A i \in 1..Len(X) : VecCloseAR(X[i], Y[i], at, rt)
AllFin(A)     == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : IsFin(A[i][j])
AllFinV(v)    == \A i \in 1..Len(v) : IsFin(v[i])

NMaxSeq(v)    == FoldLeft(LAMBDA a, b : NMax(a, b), v[1], v)
NMinSeq(v)    == FoldLeft(LAMBDA a, b : NMin(a, b), v[1], v)
NProd(v)      == FoldLeft(LAMBDA a, b : NMul(a, b), Tok("1"), v)
IncreasingV(v) == \A i \in 1..(Len(v)-1) : Lt(v[i], v[i+1])
NonDecreasingV(v) == \A i \in 1..(Len(v)-1) : Le(v[i], v[i+1])
\* is x a permutation of y, entrywise within tol (greedy is exact when the entries of y are far apart)
RECURSIVE PermClose(_, _, _)
PermClose(x, y, tol) ==
    IF Len(x) # Len(y) THEN FALSE
    ELSE IF Len(x) = 0 THEN TRUE
    ELSE \E j \in 1..Len(y) : CloseTo(x[1], y[j], tol, tol) /\ PermClose(Tail(x), RemoveAt(y, j), tol)
Pow(a, k)     == FoldLeft(LAMBDA acc, i : NMul(acc, a), Tok("1"), [i \in 1..k |-> i])
=============================================================================
