------------------------------ MODULE Coarray ------------------------------
(***************************************************************************)
(* Difference coarrays of one-dimensional grid arrays.  An abstract weight *)
(* function is [t |-> "wf", idx |-> grid indices].  Entry i + j*m (i, j    *)
(* from 0) of the vectorised difference matrix is idx[i] - idx[j].         *)
(***************************************************************************)
EXTENDS Arrays

IntIdx(a) == [i \in 1..Size(a) |-> Floor(Tok(a.att.idx[i][1]))]
Pairs(m)  == (1..m) \X (1..m)
DiffSet(x)   == { x[i] - x[j] : i \in 1..Len(x), j \in 1..Len(x) }
DiffSeq(x)   == SetToSortSeq(DiffSet(x), <)
Weight(x, d) == Cardinality({ p \in Pairs(Len(x)) : x[p[1]] - x[p[2]] = d })
VecPos(x, d) == { (p[1] - 1) + (p[2] - 1) * Len(x) : p \in { q \in Pairs(Len(x)) : x[q[1]] - x[q[2]] = d } }
\* largest Mv such that 0..Mv-1 (hence -(Mv-1)..Mv-1) are all differences
CentralMv(x) == LET D == DiffSet(x) IN CHOOSE n \in 1..(Cardinality(D) + 1) : (\A d \in 0..(n-1) : d \in D) /\ n \notin D
UlaLen(x, excl) == IF excl THEN CentralMv(x) ELSE 2 * CentralMv(x) - 1
\* exact redundancy averaging as a matrix on vec(R)
SelMat(x, excl) ==
    LET mv == CentralMv(x)
        lo == IF excl THEN 0 ELSE 1 - mv
        n == UlaLen(x, excl)
        W == [k \in 1..n |-> Weight(x, lo + k - 1)]
    IN Mat(n, Len(x) * Len(x), LAMBDA k, c :
        LET i == ((c-1) % Len(x)) + 1   j == ((c-1) \div Len(x)) + 1
        IN IF x[i] - x[j] = lo + k - 1 THEN NDiv(1, W[k]) ELSE 0)

LocDiffs(L) == LET m == Len(L) IN [c \in 1..(m*m) |-> VSub(L[((c-1) % m) + 1], L[((c-1) \div m) + 1])]

IsCoarrayArray(a) == IsGrid(a) /\ Dim(a) = 1
CoarrayJudge(H, c, r) ==
    CASE c.op = "wf" ->
           LET a == H[c.a] IN
           IF ~IsCoarrayArray(a) THEN Rejected(r, "ValueError")
           ELSE [v |-> Chk("is-weight-function", r.t = "wf", ""), o |-> [t |-> "wf", idx |-> IntIdx(a)]]
      [] c.op = "wf_diffs" ->
           LET D == DiffSeq(H[c.w].idx) IN
           [v |-> Chk("differences", IsVecV(r) /\ r.dt = "i" /\ AsIntVec(r) = D, ""), o |-> r]
      [] c.op = "wf_weights" ->
           LET x == H[c.w].idx  D == DiffSeq(x) IN
           [v |-> Chk("weights", IsVecV(r) /\ AsIntVec(r) = [k \in 1..Len(D) |-> Weight(x, D[k])], ""), o |-> r]
      [] c.op \in {"wf_of", "wf_call"} -> [v |-> Chk("weight-of", r = IntV(Weight(H[c.w].idx, c.d)), ""), o |-> None]
      [] c.op = "wf_len" -> [v |-> Chk("len", r = IntV(Cardinality(DiffSet(H[c.w].idx))), ""), o |-> None]
      [] c.op = "wf_indices" ->
           LET P == VecPos(H[c.w].idx, c.d) IN
           [v |-> Chk("indices-list", r.t = "list",
                  Chk("indices", Len(r.v) = Cardinality(P) /\ { AsInt(r.v[i]) : i \in 1..Len(r.v) } = P, "")), o |-> r]
      [] c.op = "wf_ula" -> [v |-> Chk("central-ula", r = IntV(UlaLen(H[c.w].idx, c.excl)), ""), o |-> None]
      [] c.op = "wf_sel" ->
           [v |-> Chk("selection-matrix", IsMatV(r) /\ MatClose(AsMat(r), SelMat(H[c.w].idx, c.excl), TinyTol), ""), o |-> r]
      [] c.op = "locdiff" ->
           LET M == LocDiffs(AsMat(Val(H, c.x))) IN
           [v |-> Chk("differences", IsMatV(r) /\ MatClose(AsMat(r), M, TinyTol), ""), o |-> r]
      [] c.op = "ulocdiff" ->
           \* data whose distinct differences are far apart: exactly the distinct rows, each once
           LET S == { x \in Range(LocDiffs(AsMat(Val(H, c.x)))) : TRUE }  M == AsMat(r) IN
           [v |-> Chk("matrix", IsMatV(r),
                  Chk("covered", \A x \in S : \E i \in 1..Len(M) : VecClose(M[i], x, Eps),
                  Chk("from", \A i \in 1..Len(M) : \E x \in S : VecClose(M[i], x, Eps),
                  Chk("distinct", \A i, j \in 1..Len(M) : i < j => ~VecClose(M[i], M[j], Eps), "")))), o |-> r]
CoarrayOps == {"wf", "wf_diffs", "wf_weights", "wf_of", "wf_call", "wf_len", "wf_indices", "wf_ula", "wf_sel", "locdiff", "ulocdiff"}
=============================================================================
