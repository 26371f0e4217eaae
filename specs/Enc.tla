-------------------------------- MODULE Enc --------------------------------
(***************************************************************************)
(* Values exchanged with the implementation.  A value is a record with a   *)
(* tag t:                                                                  *)
(*   none, bool [v], int [v], num [v: token], str [v], exc [c: class names *)
(*   from the most specific to BaseException], tup/list [v: values],       *)
(*   dict [k: values, v: values], arr [sh: shape, dt: "f"|"i"|"c"|"b",     *)
(*   v: rows of tokens, one row per slice along the last axis],            *)
(*   ref [n: name on the heap], other [c], and the abstract objects of the *)
(* specification (array, src, grid, ...), described in their modules.      *)
(***************************************************************************)
EXTENDS Lin, Host

Opt(c, f, d) == IF f \in DOMAIN c THEN c[f] ELSE d
Has(c, f)    == f \in DOMAIN c

None         == [t |-> "none"]
IntV(n)      == [t |-> "int", v |-> n]
StrV(s)      == [t |-> "str", v |-> s]
BoolV(b)     == [t |-> "bool", v |-> b]

IsExc(r)     == r.t = "exc"
Raised(r, cls) == IsExc(r) /\ (cls = "" \/ \E i \in 1..Len(r.c) : r.c[i] = cls)
IsArr(r)     == r.t = "arr"
IsArrSh(r, sh) == r.t = "arr" /\ r.sh = sh
IsVecV(r)    == r.t = "arr" /\ Len(r.sh) = 1
IsMatV(r)    == r.t = "arr" /\ Len(r.sh) = 2
IsNumV(r)    == r.t \in {"num", "int"}
IsTup(r, n)  == r.t = "tup" /\ Len(r.v) = n
IsInexact(r) == r.dt \in {"f", "c"}

AsNum(r)     == Tok(r.v)
\* one-dimensional array -> sequence of numbers
AsVec(r)     == IF r.sh[1] = 0 THEN <<>> ELSE TokRow(r.v[1])
\* two-dimensional array -> matrix
AsMat(r)     == IF r.sh[1] = 0 THEN <<>> ELSE TokMat(r.v)
\* any array -> all entries in row-major order
AsFlat(r)    == IF Len(r.v) = 0 THEN <<>> ELSE FoldLeft(LAMBDA a, s : a \o TokRow(s), <<>>, r.v)
AsRows(r)    == TokMat(r.v)
\* integers
AsIntVec(r)  == LET v == AsVec(r) IN [i \in 1..Len(v) |-> Floor(v[i])]
AsInt(r)     == IF r.t = "int" THEN r.v ELSE Floor(Tok(r.v))
\* 1D array, or 2D array with one column
AsColumn(r)  == IF Len(r.sh) = 1 THEN AsVec(r) ELSE [i \in 1..r.sh[1] |-> AsMat(r)[i][1]]

\* dereference a command argument
Val(H, x)    == IF x.t = "ref" THEN H[x.n] ELSE x

(* Verdicts: "" is acceptance, otherwise the name of the failing clause.   *)
Chk(name, cond, rest) == IF cond THEN rest ELSE name
Expect(r, cls) == IF Raised(r, cls) THEN "" ELSE "not-rejected"
Bind(H, n, o) == (n :> o) @@ H

Eps == Tok("1e-10")
TinyTol == Tok("1e-12")

SeqSum(s)  == FoldLeft(LAMBDA a, x : a + x, 0, s)
SeqProd(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
IMin(a, b) == IF a <= b THEN a ELSE b
IMax(a, b) == IF a >= b THEN a ELSE b
Iota(n)    == [i \in 1..n |-> i]          \* <<1, ..., n>>
Range0(n)  == [i \in 1..n |-> i - 1]      \* <<0, ..., n-1>>
Nums(s)    == [i \in 1..Len(s) |-> Tok(s[i])]
=============================================================================
