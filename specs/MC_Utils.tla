------------------------------ MODULE MC_Utils ------------------------------
(* P21: the utilities on every small input of each kind, with the identities *)
(* that tie their definitions to one another.                                *)
EXTENDS MC
CONSTANTS Kind,      \* 1 matrices, 2 unique rows, 3 Cartesian products, 4 angles and coordinates
          N, V
Entry(i) == << "0", "1", "-2", "3", "1/2" >>[i + 1]
Tup(f, n) == [i \in 1..n |-> f[i]]
RowsOf(f, m, n, e(_)) == [i \in 1..m |-> RowOf([j \in 1..n |-> e(f[(i-1) * n + j])])]
ValC(n, v) == [op |-> "val", out |-> n, v |-> v]
\* ---- 1: every pair of matrices with up to N entries each and the same number of columns ----
Shapes2 == { s \in (1..N) \X (1..N) : s[1] * s[2] <= N }
MatOf(f, s, cx) == [t |-> "arr", sh |-> s, dt |-> IF cx THEN "c" ELSE "i",
                    v |-> RowsOf(f, s[1], s[2], LAMBDA x : IF cx THEN << "0", "1", "0,1", "2,-1" >>[x + 1] ELSE << "0", "1", "-2", "3" >>[x + 1])]
Full(A) == Cols(A) <= Rows(A) /\ ~Singular(MatMul(Herm(A), A))
MatScript(X, Y) ==
    << ValC("x", X), ValC("y", Y), [op |-> "u_kr", x |-> Ref("x"), y |-> Ref("y"), out |-> "k"], [op |-> "u_vec", x |-> Ref("x"), out |-> "v"],
       [op |-> "u_abs2", x |-> Ref("y"), out |-> "q"], [op |-> "rpoke", x |-> "q"], [op |-> "u_vec", x |-> Ref("y")],
       [op |-> "u_kr", x |-> Ref("y"), y |-> Ref("x")] >>
    \o (IF Full(AsMat(X)) THEN << [op |-> "u_projm", x |-> Ref("x"), base |-> Ref("x"), out |-> "p"], [op |-> "u_projm", x |-> Ref("x"), base |-> Ref("x"), pinv |-> TRUE] >> ELSE <<>>)
Init1 == \E s \in Shapes2 : \E t \in { q \in Shapes2 : q[2] = s[2] \/ q = <<1, s[2] + 1>> } : \E cx \in BOOLEAN :
         \E f \in [1..(s[1] * s[2]) -> 0..V] : \E g \in [1..(t[1] * t[2]) -> {1, 2}] : CaseInit(MatScript(MatOf(f, s, cx), MatOf(g, t, cx)))
\* ---- 2: every matrix of up to N rows and V columns of integers, several tolerances ----
UniqScript(X) ==
    << ValC("x", X), [op |-> "u_uniq", x |-> Ref("x"), out |-> "a"], [op |-> "u_uniq", x |-> Ref("x"), atol |-> "1", rtol |-> "0", index |-> TRUE],
       [op |-> "u_uniq", x |-> Ref("x"), atol |-> "0", rtol |-> "0.5", sort |-> TRUE, index |-> TRUE], [op |-> "rpoke", x |-> "a"],
       [op |-> "u_uniq", x |-> Ref("x"), sort |-> TRUE], [op |-> "u_uniq", x |-> Ref("x"), atol |-> "2"] >>
Init2 == \E m \in 1..N : \E n \in 1..V : \E f \in [1..(m * n) -> 0..2] :
         CaseInit(UniqScript([t |-> "arr", sh |-> <<m, n>>, dt |-> IF (m + n) % 2 = 0 THEN "i" ELSE "f", v |-> RowsOf(f, m, n, LAMBDA x : << "0", "1", "3" >>[x + 1])]))
\* ---- 3: every few axes of few points ----
Axis(n, i) == VecTok(n, RowOf(SubSeq(<< <<"0.5", "-1", "2", "7">>, <<"3", "3", "-4", "1">>, <<"0", "10", "20", "-5">> >>[i], 1, n)))
CartScript(l) == [i \in 1..Len(l) |-> ValC("x" \o Int2Str(i), Axis(l[i], i))]
                 \o << [op |-> "u_cart", xs |-> [i \in 1..Len(l) |-> Ref("x" \o Int2Str(i))], out |-> "z"], [op |-> "rpoke", x |-> "z"],
                       [op |-> "u_cart", xs |-> [i \in 1..Len(l) |-> Ref("x" \o Int2Str(Len(l) + 1 - i))]] >>
Init3 == \E n \in 1..3 : \E l \in [1..n -> 0..N] : CaseInit(CartScript(Tup(l, n)))
\* ---- 4: a raster of angles, pairs of angles and points ----
Angs == [i \in 1..(2 * N + 1) |-> Shown(NDiv(i - N - 1, N))]        \* -1 .. 1
Raster == { Shown(NDiv(i, 8)) : i \in (-8)..8 }
ConvScript(f, t, x) == << ValC("x", VecTok(2, RowOf(<<x, "0.25">>))), [op |-> "u_conv", x |-> Ref("x"), frm |-> f, to |-> t, out |-> "y"], [op |-> "rpoke", x |-> "y"],
                          [op |-> "u_conv", x |-> Ref("x"), frm |-> f, to |-> t] >>
PtScript(p) == << ValC("x", [t |-> "arr", sh |-> <<1, Len(p)>>, dt |-> "f", v |-> << RowOf([i \in 1..Len(p) |-> Int2Str(p[i])]) >>]), [op |-> "u_sph", x |-> Ref("x"), out |-> "y"], [op |-> "rpoke", x |-> "y"],
                  [op |-> "u_sph", x |-> Ref("x")] >>
AeScript(a, e) == << ValC("x", MatTok(2, 2, << RowOf(<<a, e>>), RowOf(<<e, a>>) >>)), [op |-> "u_ae", x |-> Ref("x"), out |-> "y"], [op |-> "rpoke", x |-> "y"], [op |-> "u_ae", x |-> Ref("x")] >>
Init4 == \/ \E f \in {"rad", "deg", "sin", "turn"} : \E t \in {"rad", "deg", "sin", ""} : \E x \in Raster : CaseInit(ConvScript(f, t, x))
         \/ \E d \in 1..3 : \E p \in [1..d -> (-V)..V] : CaseInit(PtScript(Tup(p, d)))
         \/ \E a, e \in Raster : CaseInit(AeScript(a, e))
Init == CASE Kind = 1 -> Init1 [] Kind = 2 -> Init2 [] Kind = 3 -> Init3 [] Kind = 4 -> Init4
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

\* ---- laws ----
X == AsMat(heap["x"])
Y == AsMat(heap["y"])
Eq(A, B) == MatClose(A, B, 0)
MatLaws == heap["x"].sh[2] = heap["y"].sh[2] =>
    LET K == KhatriRao(X, Y) IN
    \* its columns are the Kronecker products of the columns; its Gram matrix is the product of the Gram matrices
    /\ Law("columns", \A j \in 1..Cols(X) : Eq(ColVec(Col(K, j)), Kron(ColVec(Col(X, j)), ColVec(Col(Y, j)))))
    /\ Law("gram", Eq(MatMul(Herm(K), K), Hadamard(MatMul(Herm(X), X), MatMul(Herm(Y), Y))))
    \* vec(Y D X^T) = (X kr Y) d
    /\ Law("vec of a sum of outer products", LET d == [j \in 1..Cols(X) |-> j] IN VecClose(VecOf(MatMul(Y, MatMul(Diag(d), Trans(X)))), MatVec(K, d), 0))
    /\ Law("vec of a product", Eq(ColVec(VecOf(MatMul(Y, Trans(X)))), MatMul(Kron(X, Ident(Rows(Y))), ColVec(VecOf(Y)))))
    /\ Law("projector", Full(X) => LET P == Projector(X) IN Eq(MatMul(P, P), P) /\ Eq(Herm(P), P) /\ Eq(MatMul(P, X), X) /\ NEq(Trace(P), Cols(X)))
    /\ Law("squared modulus", NEq(NSum(Vec(Rows(Y), LAMBDA i : NSum(Vec(Cols(Y), LAMBDA j : Abs2(Y[i][j]))))), Trace(MatMul(Herm(Y), Y))))
Tols == {Tok("0"), Tok("1"), Tok("2")}
UniqLaws == \A tol \in Tols : LET K == Kept(X, tol) IN
    /\ Law("the first row is kept", K[1] = 1 /\ \A i \in 1..(Len(K)-1) : K[i] < K[i+1])
    /\ Law("kept rows differ", \A i, j \in 1..Len(K) : i # j => ~Within1(X[K[i]], X[K[j]], tol))
    /\ Law("every row is near an earlier kept one", \A i \in 1..Len(X) : \E j \in 1..Len(K) : K[j] <= i /\ Within1(X[K[j]], X[i], tol))
    /\ Law("once is enough", Len(Kept(SubRows(X, K), tol)) = Len(K))
    /\ Law("exact", NEq(tol, 0) => Len(K) = Cardinality({ [j \in 1..Cols(X) |-> Floor(X[i][j])] : i \in 1..Len(X) }))
CartLaws == LET n == Cardinality({ x \in DOMAIN heap : x \in {"x1", "x2", "x3"} })
                vs == [i \in 1..n |-> AsVec(heap["x" \o Int2Str(i)])]
                P == ProductRows(vs)
                stride(i) == SeqProd([j \in 1..(n - i) |-> Len(vs[i + j])]) IN
    /\ Law("size", Len(P) = SeqProd([i \in 1..n |-> Len(vs[i])]))
    \* mixed radix, the last axis the least significant digit
    /\ Law("order", \A r \in 1..Len(P) : \A i \in 1..n : NEq(P[r][i], vs[i][(((r - 1) \div stride(i)) % Len(vs[i])) + 1]))
Cmd == hist[2]
AngleLaws ==
    CASE Cmd.op = "u_ae" -> \* the broadside angle of a direction is its elevation above the plane across the array
           Law("broadside", \A i \in 1..2 : LET d == DirFar(MkSrc("ff2", "rad", << <<X[i][1], X[i][2]>> >>), 1) IN NEq(NMul(d.ca, d.ce), NMul(CosRad(X[i][1]), CosRad(X[i][2]))))
      [] Cmd.op = "u_conv" -> Law("half turns", \A x \in {"0.25", "1"} : CloseTo(SinRad(ToRad("deg", NSub(180, x))), SinRad(ToRad("deg", x)), TinyTol, 0))
      [] OTHER -> TRUE
Laws == CASE Kind = 1 -> MatLaws [] Kind = 2 -> UniqLaws [] Kind = 3 -> CartLaws [] Kind = 4 -> AngleLaws
=============================================================================
