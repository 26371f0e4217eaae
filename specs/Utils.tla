-------------------------------- MODULE Utils --------------------------------
(***************************************************************************)
(* Matrix and angle utilities.                                             *)
(***************************************************************************)
EXTENDS Sparse

Dt(X, Y) == IF "c" \in {X.dt, Y.dt} THEN "c" ELSE IF "f" \in {X.dt, Y.dt} THEN "f" ELSE "i"
Small == Tok("1e-12")
\* entries of an array, compared one by one
FlatClose(r, sh, v, at, rt) == IsArrSh(r, sh) /\ VecCloseAR(AsFlat(r), v, at, rt)

JudgeVec(H, c, r) ==
    LET X == Val(H, c.x) IN
    IF IsExc(r) THEN "raised"
    ELSE Chk("type", IsArr(r) /\ r.dt = X.dt,
         Chk("shape", r.sh = <<SeqProd(X.sh), 1>>,
         Chk("entries", SeqProd(X.sh) = 0 \/ VecCloseAR(AsFlat(r), VecOf(AsMat(X)), 0, 0), "")))
JudgeAbs2(H, c, r) ==
    LET X == Val(H, c.x)  v == AsFlat(X) IN
    IF IsExc(r) THEN "raised"
    ELSE Chk("type", IsArr(r) /\ r.dt = (IF X.dt = "c" THEN "f" ELSE X.dt),
         Chk("entries", FlatClose(r, X.sh, Vec(Len(v), LAMBDA i : Abs2(v[i])), 0, Small), ""))
JudgeKr(H, c, r) ==
    LET X == Val(H, c.x)  Y == Val(H, c.y)  sh == <<X.sh[1] * Y.sh[1], X.sh[2]>> IN
    IF X.sh[2] # Y.sh[2] THEN Expect(r, "ValueError")
    ELSE IF IsExc(r) THEN "raised"
    ELSE Chk("type", IsArr(r) /\ r.dt = Dt(X, Y),
         Chk("entries", IsArrSh(r, sh) /\ (SeqProd(sh) = 0 \/ MatCloseAR(AsMat(r), KhatriRao(AsMat(X), AsMat(Y)), Tok("1e-300"), Small)), ""))
\* c.base has full column rank and the same column space
JudgeProjm(H, c, r) ==
    LET X == Val(H, c.x)  B == AsMat(Val(H, c.base)) IN
    IF IsExc(r) THEN "raised"
    ELSE Chk("type", IsArr(r) /\ r.dt = (IF X.dt = "c" THEN "c" ELSE "f"),
         Chk("projector", IsArrSh(r, <<X.sh[1], X.sh[1]>>) /\ MatClose(AsMat(r), Projector(B), Tok("1e-7")), ""))
\* every combination, the last vector varying fastest
RECURSIVE ProductRows(_)
ProductRows(vs) ==
    IF vs = <<>> THEN << <<>> >>
    ELSE LET rest == ProductRows(Tail(vs)) IN
         FoldLeft(LAMBDA acc, x : acc \o [i \in 1..Len(rest) |-> <<x>> \o rest[i]], <<>>, vs[1])
JudgeCart(H, c, r) ==
    LET vs == [i \in 1..Len(c.xs) |-> AsVec(Val(H, c.xs[i]))]
        P == ProductRows(vs)
        dt == FoldLeft(LAMBDA d, i : LET e == Val(H, c.xs[i]).dt IN IF "c" \in {d, e} THEN "c" ELSE IF "f" \in {d, e} THEN "f" ELSE "i", "i", Iota(Len(c.xs)))
    IN IF IsExc(r) THEN "raised"
       ELSE Chk("type", IsArr(r) /\ r.dt = dt,
            Chk("rows", IsArrSh(r, <<Len(P), Len(vs)>>) /\ (Len(P) = 0 \/ MatCloseAR(AsMat(r), P, 0, 0)), ""))

\* ---- unique rows: a row is kept unless an earlier kept row is within the tolerance -------
Within1(u, v, tol) == \A i \in 1..Len(u) : Le(Abs(NSub(u[i], v[i])), tol)
Kept(X, tol) == FoldLeft(LAMBDA acc, i : IF \E j \in 1..Len(acc) : Within1(X[acc[j]], X[i], tol) THEN acc ELSE Append(acc, i), <<>>, Iota(Len(X)))
NumSame(a, b) == NEq(a, b) \/ (~IsFin(a) /\ ~IsFin(b))
RECURSIVE LexLe(_, _)
LexLe(u, v) == u = <<>> \/ Lt(u[1], v[1]) \/ (NEq(u[1], v[1]) /\ LexLe(Tail(u), Tail(v)))
JudgeUniq(H, c, r) ==
    LET XV == Val(H, c.x)  sorted == Opt(c, "sort", FALSE)  idx == Opt(c, "index", FALSE) IN
    IF Len(XV.sh) # 2 THEN Expect(r, "ValueError")
    ELSE IF IsExc(r) THEN "raised"
    ELSE IF idx /\ ~(IsTup(r, 2) /\ IsVecV(r.v[2])) THEN "index-result"
    ELSE LET X == IF XV.sh[1] = 0 THEN <<>> ELSE AsMat(XV)
             fin == FoldLeft(LAMBDA a, i : a \o SelectSeq(Vec(Len(X[i]), LAMBDA j : Abs(X[i][j])), IsFin), <<>>, Iota(Len(X)))
             tol == NAdd(Tok(Opt(c, "atol", "0")), NMul(Tok(Opt(c, "rtol", "1e-8")), NMaxSeq(<<Tok("0")>> \o fin)))
             K == Kept(X, tol)
             y == IF idx THEN r.v[1] ELSE r
             Y == IF y.t = "arr" /\ y.sh[1] > 0 THEN AsMat(y) ELSE <<>>
             same(u, v) == \A i \in 1..Len(u) : NumSame(u[i], v[i])
             ix == IF idx THEN [i \in 1..Len(AsIntVec(r.v[2])) |-> AsIntVec(r.v[2])[i] + 1] ELSE <<>>
         IN Chk("shape", IsArrSh(y, <<Len(K), XV.sh[2]>>) /\ y.dt = XV.dt,
            Chk("rows", IF sorted
                        THEN \* the kept rows in lexicographic order; kept rows differ, so the order is total
                             /\ \A i \in 1..(Len(Y)-1) : LexLe(Y[i], Y[i+1])
                             /\ \A i \in 1..Len(K) : \E j \in 1..Len(Y) : same(Y[j], X[K[i]])
                        ELSE \A i \in 1..Len(K) : same(Y[i], X[K[i]]),
            IF ~idx THEN ""
            ELSE Chk("index-type", r.v[2].sh = <<Len(K)>> /\ r.v[2].dt = "i",
                 Chk("index", ToSet(ix) = ToSet(K) /\ \A i \in 1..Len(K) : same(Y[i], X[ix[i]]), ""))))

\* ---- angles -----------------------------------------------------------------------------------
AngleUnits == {"rad", "deg", "sin"}
ToRad(u, x) == IF u = "deg" THEN DegToRad(x) ELSE x
JudgeConv(H, c, r) ==
    LET X == Val(H, c.x)  v == AsFlat(X)  y == IF IsArr(r) THEN AsFlat(r) ELSE <<>>  f == c.frm  t == c.to
        half == NMul(NDiv(Pi, 2), Tok("1.000000000001"))
        ok(i) == IF f = t THEN NEq(y[i], v[i])
                 ELSE IF t = "sin" THEN CloseTo(y[i], SinRad(ToRad(f, v[i])), Tok("1e-14"), Small)
                 ELSE IF f = "sin" THEN LET a == ToRad(t, y[i]) IN Le(Abs(a), half) /\ CloseTo(SinRad(a), v[i], Tok("1e-14"), Small)
                 ELSE IF t = "rad" THEN CloseTo(y[i], DegToRad(v[i]), 0, Small)
                 ELSE CloseTo(DegToRad(y[i]), v[i], 0, Small)
    IN IF f \notin AngleUnits \/ t \notin AngleUnits THEN Expect(r, "")
       ELSE IF IsExc(r) THEN "raised"
       ELSE Chk("shape", IF X.sh = <<>> THEN r.t \in {"num", "arr"} ELSE IsArrSh(r, X.sh),
            Chk("values", IF r.t = "num" THEN TRUE ELSE \A i \in 1..Len(v) : ok(i), ""))
JudgeAe(H, c, r) ==
    LET X == Val(H, c.x)  A == IF X.sh[1] = 0 THEN <<>> ELSE AsMat(X)  b == IF IsArr(r) THEN AsFlat(r) ELSE <<>>
        half == NMul(NDiv(Pi, 2), Tok("1.000000000001"))
    IN IF IsExc(r) THEN "raised"
       ELSE Chk("shape", IsArrSh(r, <<X.sh[1], 1>>),
            Chk("values", \A i \in 1..Len(A) :
                    Le(Abs(b[i]), half) /\ CloseTo(SinRad(b[i]), NMul(CosRad(A[i][1]), CosRad(A[i][2])), Tok("1e-14"), Small), ""))
JudgeCart2Sph(H, c, r) ==
    LET X == Val(H, c.x)  A == IF X.sh[1] = 0 THEN <<>> ELSE AsMat(X)  S == IF IsMatV(r) /\ r.sh[1] > 0 THEN AsMat(r) ELSE <<>>
        at(i, k) == IF k <= X.sh[2] THEN A[i][k] ELSE Tok("0")
        slack == Tok("1.000000000001")
        ok(i) == LET d == S[i][1]  az == S[i][2]  el == S[i][3]  e == NMul(Small, d) IN
                 /\ CloseTo(d, Norm(A[i]), 0, Small)
                 /\ Le(Abs(az), NMul(Pi, slack)) /\ Le(Abs(el), NMul(NDiv(Pi, 2), slack))
                 /\ CloseTo(NMul(d, NMul(CosRad(az), CosRad(el))), at(i, 1), e, 0)
                 /\ CloseTo(NMul(d, NMul(SinRad(az), CosRad(el))), at(i, 2), e, 0)
                 /\ CloseTo(NMul(d, SinRad(el)), at(i, 3), e, 0)
    IN IF IsExc(r) THEN "raised"
       ELSE Chk("shape", IsArrSh(r, <<X.sh[1], 3>>),
            Chk("values", \A i \in 1..Len(A) : ok(i), ""))
JudgeRandcn(H, c, r) ==
    IF IsExc(r) THEN "raised"
    ELSE Chk("shape", IsArrSh(r, c.sh) /\ r.dt = "c",
         Chk("distinct", \A i, j \in 1..Len(AsFlat(r)) : i # j => ~NEq(AsFlat(r)[i], AsFlat(r)[j]), ""))

UtilOps == {"u_vec", "u_abs2", "u_kr", "u_projm", "u_cart", "u_uniq", "u_conv", "u_ae", "u_sph", "u_randcn"}
UtilJudge(H, c, r) ==
    [v |-> CASE c.op = "u_vec" -> JudgeVec(H, c, r)
             [] c.op = "u_abs2" -> JudgeAbs2(H, c, r)
             [] c.op = "u_kr" -> JudgeKr(H, c, r)
             [] c.op = "u_projm" -> JudgeProjm(H, c, r)
             [] c.op = "u_cart" -> JudgeCart(H, c, r)
             [] c.op = "u_uniq" -> JudgeUniq(H, c, r)
             [] c.op = "u_conv" -> JudgeConv(H, c, r)
             [] c.op = "u_ae" -> JudgeAe(H, c, r)
             [] c.op = "u_sph" -> JudgeCart2Sph(H, c, r)
             [] c.op = "u_randcn" -> JudgeRandcn(H, c, r),
     o |-> r]
=============================================================================
