-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Complex numbers for TLC.                                                *)
(*                                                                         *)
(* TLA+'s Reals module has no TLC implementation, so the operators below   *)
(* are evaluated by /verif/java/doanum (a TLC operator override).  Their   *)
(* meaning is the ordinary field C with exact rational arithmetic; results *)
(* that no longer fit about 1200 bits, and irrational ones, carry 240      *)
(* significant bits.  A number argument may be a number, an Int or a       *)
(* token string: "3", "-3/7", "0.25" (the IEEE double this literal         *)
(* denotes, taken exactly), "re,im", "nan", "inf", "-inf".                 *)
(* Everything above this small field (matrices, projectors, manifolds,     *)
(* likelihoods, ...) is defined in TLA+ in the modules that follow; MatMul,*)
(* MatInv and MatDet have evaluators too, for speed, and module SelfTest   *)
(* checks them against their TLA+ definitions.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL Missing(op) == Assert(FALSE, "TLC override missing for " \o op)

Tok(s)      == Missing("Tok")        \* token -> number
TokRow(s)   == Missing("TokRow")     \* "t1 t2 ..." or <<t1, ...>> -> sequence of numbers
TokMat(s)   == Missing("TokMat")     \* sequence of rows -> matrix
Shown(x)    == Missing("Shown")      \* number -> short string, for reports

NAdd(a, b)  == Missing("NAdd")
NSub(a, b)  == Missing("NSub")
NMul(a, b)  == Missing("NMul")
NDiv(a, b)  == Missing("NDiv")       \* "nan" when b = 0
NNeg(a)     == Missing("NNeg")
Conj(a)     == Missing("Conj")
Re(a)       == Missing("Re")
Im(a)       == Missing("Im")
Cplx(a, b)  == Missing("Cplx")
Abs2(a)     == Missing("Abs2")       \* |a|^2
Abs(a)      == Missing("Abs")

Lt(a, b)    == Missing("Lt")         \* real order; FALSE when either is nan
Le(a, b)    == Missing("Le")
NEq(a, b)   == Missing("NEq")
IsFin(a)    == Missing("IsFin")
CloseTo(a, b, atol, rtol) == Missing("CloseTo")   \* |a-b| <= atol + rtol*|b|
Floor(a)    == Missing("Floor")      \* real -> Int
NFloor(a)   == Missing("NFloor")     \* real -> number

Pi          == Missing("Pi")
Sqrt(a)     == Missing("Sqrt")       \* real a >= 0, else nan
Log(a)      == Missing("Log")        \* real a > 0, else nan
Exp(a)      == Missing("Exp")
CisTurn(t)  == Missing("CisTurn")    \* exp(2 pi i t); exact at quarter turns
CisRad(x)   == Missing("CisRad")     \* exp(i x)

NSum(s)     == Missing("NSum")       \* sum of a sequence
DotU(u, v)  == Missing("DotU")       \* SUM u[i]*v[i]   (no conjugation)

\* Evaluated by Java; the definitions are in Lin.tla (MatMulDef, ...).
MatMul(A, B)  == Missing("MatMul")
MatInv(A)     == Missing("MatInv")   \* <<>> when singular
MatDet(A)     == Missing("MatDet")
MatDist(A, B) == Missing("MatDist")  \* max |A-B|; -1: shapes differ; nan: non-finite entries

-----------------------------------------------------------------------------
Half      == Tok("1/2")
NSq(a)    == NMul(a, a)
Gt(a, b)  == Lt(b, a)
Ge(a, b)  == Le(b, a)
NMin(a, b) == IF Le(a, b) THEN a ELSE b
NMax(a, b) == IF Le(a, b) THEN b ELSE a
IsInt(a)  == NEq(a, NFloor(a))
CosRad(x) == Re(CisRad(x))
SinRad(x) == Im(CisRad(x))
Deg(d)    == NDiv(d, 360)            \* degrees as turns
DegToRad(d) == NDiv(NMul(d, Pi), 180)
=============================================================================
