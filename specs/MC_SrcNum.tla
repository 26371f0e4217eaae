----------------------------- MODULE MC_SrcNum -----------------------------
(* P15: the criteria on every ascending sequence of a few eigenvalues.       *)
EXTENDS MC
CONSTANTS L, W      \* lengths up to L, eigenvalues: 1..W and two outliers
Vals == [i \in 1..(W + 2) |-> IF i <= W THEN i ELSE IF i = W + 1 THEN 40 ELSE 900]
Seqs == UNION { { x \in [1..n -> 1..(W + 2)] : \A i \in 1..(n-1) : x[i] <= x[i+1] } : n \in 1..L }
Q(f, x, n) == [op |-> "srcnum", f |-> f, x |-> Ref(x), n |-> n]
Script(x, n) ==
    LET l == VecTok(Len(x), RowOf([i \in 1..Len(x) |-> Int2Str(Vals[x[i]])])) IN
    << [op |-> "val", out |-> "l", v |-> l], [op |-> "mkcov", out |-> "R", l |-> l, seed |-> n + 7 * Len(x), real |-> Len(x) % 2 = 0],
       Q("aic", "l", n), Q("mdl", "l", n), Q("sorte", "l", n), Q("mdl", "R", n), Q("aic", "R", n), [op |-> "ldstat", l |-> Ref("l"), k |-> Len(x) \div 2, n |-> n] >>
Init == \E x \in Seqs : \E n \in {3, 50, 4000} : CaseInit(Script(x, n))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

l == AsVec(heap["l"])
m == Len(l)
n == hist[3].n
K(f, v) == SmallestMinimiser(Crit(f, v, n)) - (IF f = "sorte" THEN 0 ELSE 1)
Tie(f, v) == LET x == Crit(f, v, n) IN \E i, j \in 1..Len(x) : i # j /\ NearMin(x, i) /\ NearMin(x, j)
InRangeOf == /\ K("aic", l) \in 0..(m-1) /\ K("mdl", l) \in 0..(m-1)
\* the statistic is the log of a ratio of means: never negative, zero only for equal eigenvalues
RatioLaw == \A k \in 0..(m-1) : /\ Le(NNeg(Tok("1e-30")), LdStat(l, k, n))
                                /\ (NEq(l[1], l[m - k]) <=> Le(LdStat(l, k, n), Tok("1e-30")))
AllEqual == NEq(l[1], l[m]) => K("aic", l) = 0 /\ K("mdl", l) = 0
ScaleLaw == \A f \in {"aic", "mdl"} : ~Tie(f, l) => K(f, VScale("7/3", l)) = K(f, l)
\* a heavier penalty never finds more sources
Order == (n >= 8 /\ ~Tie("aic", l) /\ ~Tie("mdl", l)) => K("mdl", l) <= K("aic", l)
\* one outlier above equal eigenvalues
OneSource == (m > 1 /\ n = 4000 /\ NEq(l[1], l[m-1]) /\ Lt(NMul(2, l[1]), l[m])) => K("mdl", l) = 1
Consistent == \A k \in 1..(m-1) : (n = 4000 /\ NEq(l[1], l[m-k]) /\ Lt(NMul(2, l[1]), l[m-k+1])) => K("mdl", l) = k
SorteLaw == m >= 4 => LET v == Sorte(l) IN \A i \in 1..Len(v) : IsFin(v[i]) => Le(0, v[i])
SorteScale == (m >= 4 /\ ~Tie("sorte", l) /\ \E i \in 1..(m-3) : IsFin(Sorte(l)[i])) => K("sorte", VScale("7/3", l)) = K("sorte", l)
=============================================================================
