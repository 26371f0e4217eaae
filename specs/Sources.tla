------------------------------ MODULE Sources ------------------------------
(***************************************************************************)
(* Source placements.  An abstract placement is                            *)
(*   [t |-> "src", k |-> "ff1" | "ff2" | "nf2", u |-> unit, loc |-> K x d] *)
(* with ff1: broadside angles (d = 1), ff2: azimuth-elevation, nf2: x-y.   *)
(***************************************************************************)
EXTENDS Arrays

DPi   == Tok("3.141592653589793")        \* the doubles closest to pi, pi/2
DPi2  == Tok("1.5707963267948966")
Neg(x) == NNeg(x)
Units(k) == CASE k = "ff1" -> {"rad", "deg", "sin"} [] k = "ff2" -> {"rad", "deg"} [] k = "nf2" -> {"m"}
\* upper bounds, the ranges are symmetric; "inf": unbounded
Bounds(k, u) ==
    CASE k = "ff1" -> << IF u = "rad" THEN DPi2 ELSE IF u = "deg" THEN Tok("90") ELSE Tok("1") >>
      [] k = "ff2" -> IF u = "rad" THEN << DPi, DPi2 >> ELSE << Tok("180"), Tok("90") >>
      [] k = "nf2" -> << Tok("inf"), Tok("inf") >>
SDim(k)   == IF k = "ff1" THEN 1 ELSE 2
UnitTuple(k, u) == [i \in 1..SDim(k) |-> u]
InRange(k, u, loc) == \A i \in 1..Len(loc) : \A j \in 1..SDim(k) :
                        Le(loc[i][j], Bounds(k, u)[j]) /\ Le(Neg(Bounds(k, u)[j]), loc[i][j])
MkSrc(k, u, loc) == [t |-> "src", k |-> k, u |-> u, loc |-> loc]
NSrc(s) == Len(s.loc)

\* observed placement: r = [t, k, units, loc]
ObsLoc(r) == IF r.k = "ff1" THEN ColIdx(AsVec(r.loc)) ELSE AsMat(r.loc)
WellFormedSrc(r, k, u, n) ==
    /\ r.t = "src" /\ r.k = k
    /\ r.units = UnitTuple(k, u)
    /\ IsArr(r.loc) /\ r.loc.dt = "f"
    /\ r.loc.sh = (IF k = "ff1" THEN <<n>> ELSE <<n, 2>>)
SameSrc(r, s) ==
    /\ WellFormedSrc(r, s.k, s.u, NSrc(s))
    /\ ObsLoc(r) = s.loc
ViewSrc(s, r) == Chk("is-placement", r.t = "src",
                 Chk("kind", r.k = s.k,
                 Chk("unit", r.units = UnitTuple(s.k, s.u),
                 Chk("real-locations", IsArr(r.loc) /\ r.loc.dt = "f",
                 Chk("locations", SameSrc(r, s), "")))))
\* complete observation
SviewOk(s, r) ==
    Chk("size", r.size = IntV(NSrc(s)) /\ r.len = IntV(NSrc(s)),
    Chk("far-field", r.far = (s.k # "nf2"),
    Chk("ranges", LET b == Bounds(s.k, s.u) IN
           IsTup(r.ranges, Len(b)) /\ \A i \in 1..Len(b) :
               LET q == r.ranges.v[i] IN IsTup(q, 2) /\ NEq(AsNum(q.v[1]), Neg(b[i])) /\ NEq(AsNum(q.v[2]), b[i]),
    ViewSrc(s, r.src))))

CtorErr(c, k, u, x) ==
    IF k = "ff1" /\ Len(x.sh) > 1 THEN "ValueError"
    ELSE IF k # "ff1" /\ (Len(x.sh) # 2 \/ x.sh[2] # 2) THEN "ValueError"
    ELSE IF u \notin Units(k) THEN "ValueError"
    ELSE ""
ArgLoc(k, x) == IF k = "ff1" THEN ColIdx(AsVec(x)) ELSE AsMat(x)
JudgeSrc(H, c, r) ==
    LET k == c.op  u == Opt(c, "unit", IF k = "nf2" THEN "m" ELSE "rad")  x == Val(H, c.v) IN
    IF CtorErr(c, k, u, x) # "" THEN Rejected(r, CtorErr(c, k, u, x))
    ELSE IF ~InRange(k, u, ArgLoc(k, x)) THEN Rejected(r, "ValueError")
    ELSE LET s == MkSrc(k, u, ArgLoc(k, x)) IN [v |-> Chk("raised", ~IsExc(r), ViewSrc(s, r)), o |-> s]

\* ---- indexing -----------------------------------------------------------
\* Python index and slice semantics over 0..n-1
WrapIx(i, n) == IF i < 0 THEN i + n ELSE i
Clip(x, lo, hi) == IMax(lo, IMin(x, hi))
SliceIx(sl, n) ==
    LET st == IF sl.s = None THEN 1 ELSE sl.s.v
        lo == IF st > 0 THEN 0 ELSE -1
        hi == IF st > 0 THEN n ELSE n - 1
        a  == IF sl.a = None THEN (IF st > 0 THEN lo ELSE hi) ELSE Clip(WrapIx(sl.a.v, n), lo, hi)
        b  == IF sl.b = None THEN (IF st > 0 THEN hi ELSE lo) ELSE Clip(WrapIx(sl.b.v, n), lo, hi)
        cnt == IF st > 0 THEN (IF b > a THEN (b - a + st - 1) \div st ELSE 0)
               ELSE (IF a > b THEN (a - b + (-st) - 1) \div (-st) ELSE 0)
    IN [i \in 1..cnt |-> a + (i-1) * st]
MaskIx(m) == SelectSeq(Range0(Len(m)), LAMBDA i : m[i+1])
\* [err, ix]
KeyIx(key, n) ==
    LET Ints(v) == IF \A i \in 1..Len(v) : v[i] \in (-n)..(n-1) THEN [err |-> "", ix |-> [i \in 1..Len(v) |-> WrapIx(v[i], n)]]
                   ELSE [err |-> "IndexError"]
    IN CASE key.t = "slice" -> [err |-> "", ix |-> SliceIx(key, n)]
         [] key.t = "arr" /\ Len(key.sh) # 1 -> [err |-> "ValueError"]
         [] key.t = "arr" /\ Len(key.sh) = 1 ->
              IF key.dt = "b"
              THEN IF key.sh[1] # n THEN [err |-> "IndexError"]
                   ELSE [err |-> "", ix |-> MaskIx([i \in 1..n |-> AsVec(key)[i] = Tok("1")])]
              ELSE Ints(AsIntVec(key))
         \* a list of truth values is a mask, like the array
         [] key.t = "list" /\ Len(key.v) > 0 /\ (\A i \in 1..Len(key.v) : key.v[i].t = "bool") ->
              IF Len(key.v) # n THEN [err |-> "IndexError"] ELSE [err |-> "", ix |-> MaskIx([i \in 1..n |-> key.v[i].v])]
         [] key.t = "list" -> Ints([i \in 1..Len(key.v) |-> key.v[i].v])
         [] OTHER -> [err |-> "KeyError"]
JudgeGet(H, c, r) ==
    LET s == H[c.s]  n == NSrc(s)  key == Val(H, c.key) IN
    IF key.t = "int"
    THEN IF key.v \notin (-n)..(n-1) THEN Rejected(r, "IndexError")
         ELSE [v |-> Chk("raised", ~IsExc(r),
                     LET e == s.loc[WrapIx(key.v, n) + 1] IN
                     Chk("item", IF s.k = "ff1" THEN IsNumV(r) /\ NEq(AsNum(r), e[1]) ELSE IsVecV(r) /\ AsVec(r) = e, "")), o |-> None]
    ELSE LET q == KeyIx(key, n) IN
         IF q.err # "" THEN Rejected(r, q.err)
         ELSE LET s2 == [s EXCEPT !.loc = [i \in 1..Len(q.ix) |-> s.loc[q.ix[i] + 1]]]
              IN [v |-> Chk("raised", ~IsExc(r), ViewSrc(s2, r)), o |-> s2]

\* ---- units ---------------------------------------------------------------
\* angle x in unit u as [c, s]: cosine and sine (of a broadside angle for "sin")
CS(x, u) == CASE u = "rad" -> LET z == CisRad(x) IN [c |-> Re(z), s |-> Im(z)]
              [] u = "deg" -> LET z == CisTurn(NDiv(x, 360)) IN [c |-> Re(z), s |-> Im(z)]
              [] u = "sin" -> [c |-> Sqrt(NSub(1, NSq(x))), s |-> x]
InTurns(x, u) == CASE u = "rad" -> NDiv(x, NMul(2, Pi)) [] u = "deg" -> NDiv(x, 360)
\* y (in unit v) denotes the same angle as x (in unit u)
SameAngle(x, u, y, v) ==
    IF u = v THEN NEq(x, y)
    ELSE IF u # "sin" /\ v # "sin" THEN CloseTo(InTurns(y, v), InTurns(x, u), 0, TinyTol)
    ELSE LET p == CS(x, u)  q == CS(y, v)
         IN IF v = "sin" THEN CloseTo(y, p.s, Tok("1e-14"), TinyTol)     \* a broadside angle is determined by its sine
            ELSE CloseTo(q.s, p.s, Tok("1e-14"), TinyTol) /\ CloseTo(q.c, p.c, Tok("1e-14"), TinyTol)
\* the converted coordinate itself (arcsine by Newton's method)
RECURSIVE AsinIter(_, _, _)
AsinIter(x, y, n) == IF n = 0 THEN y ELSE
    LET z == CisRad(y) IN AsinIter(x, NSub(y, NDiv(NSub(Im(z), x), Re(z))), n - 1)
Asin(x) == IF NEq(Abs(x), 1) THEN NMul(x, NDiv(Pi, 2))
           ELSE IF Lt("0.71", Abs(x)) THEN LET a == NSub(NDiv(Pi, 2), AsinIter(Sqrt(NSub(1, NSq(x))), Sqrt(NSub(1, NSq(x))), 9)) IN IF Lt(x, 0) THEN NNeg(a) ELSE a
           ELSE AsinIter(x, x, 9)
Radians(x, u) == CASE u = "rad" -> x [] u = "deg" -> DegToRad(x) [] u = "sin" -> Asin(x)
Convert(x, u, v) == IF u = v THEN x
                    ELSE CASE v = "rad" -> Radians(x, u) [] v = "deg" -> NDiv(NMul(180, Radians(x, u)), Pi) [] v = "sin" -> CS(x, u).s
Converted(s, v) == MkSrc(s.k, v, [i \in 1..NSrc(s) |-> [j \in 1..SDim(s.k) |-> Convert(s.loc[i][j], s.u, v)]])
JudgeAsUnit(H, c, r) ==
    LET s == H[c.s] IN
    IF c.unit \notin Units(s.k)
    THEN IF s.k = "nf2" THEN Rejected(r, "ValueError") ELSE Rejected(r, "")
    ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
    ELSE IF ~WellFormedSrc(r, s.k, c.unit, NSrc(s)) THEN [v |-> "kind-unit-shape", o |-> Converted(s, c.unit)]
    ELSE LET L == ObsLoc(r) IN
         [v |-> Chk("within-range", InRange(s.k, c.unit, L),
                Chk("directions", \A i \in 1..NSrc(s) : \A j \in 1..SDim(s.k) : SameAngle(s.loc[i][j], s.u, L[i][j], c.unit), "")),
          o |-> MkSrc(s.k, c.unit, L)]

\* ---- geometry ------------------------------------------------------------
\* Direction of source k seen from a reference point (Cartesian, 1 to 3 coordinates):
\* range r ("inf" in the far field) and cosines / sines of azimuth and elevation.
Pad3(p) == PadTo(p, 3)
DirFar(s, k) ==
    IF s.k = "ff1" THEN LET a == CS(s.loc[k][1], s.u) IN [r |-> Tok("inf"), ca |-> a.s, sa |-> a.c, ce |-> Tok("1"), se |-> Tok("0")]
    ELSE LET a == CS(s.loc[k][1], s.u)  e == CS(s.loc[k][2], s.u)
         IN [r |-> Tok("inf"), ca |-> a.c, sa |-> a.s, ce |-> e.c, se |-> e.s]
DirCart(d) ==      \* d: three Cartesian components
    LET xy == Sqrt(NAdd(NSq(d[1]), NSq(d[2])))
        rr == Sqrt(NSum(<<NSq(d[1]), NSq(d[2]), NSq(d[3])>>))
    IN [r |-> rr,
        ca |-> IF NEq(xy, 0) THEN Tok("1") ELSE NDiv(d[1], xy), sa |-> IF NEq(xy, 0) THEN Tok("0") ELSE NDiv(d[2], xy),
        ce |-> IF NEq(rr, 0) THEN Tok("1") ELSE NDiv(xy, rr), se |-> IF NEq(rr, 0) THEN Tok("0") ELSE NDiv(d[3], rr)]
Direction(s, k, p) == IF s.k = "nf2" THEN DirCart(VSub(Pad3(s.loc[k]), Pad3(p))) ELSE DirFar(s, k)

\* observed range, azimuth, elevation (radians) agree with a direction
AgreesDir(d, r, az, el) ==
    /\ IF IsFin(d.r) THEN CloseTo(r, d.r, TinyTol, TinyTol) ELSE NEq(r, "inf")
    /\ LET z == CisRad(az)  w == CisRad(el) IN
       /\ CloseTo(Re(w), d.ce, Eps, 0) /\ CloseTo(Im(w), d.se, Eps, 0)
       /\ CloseTo(Re(z), d.ca, Eps, 0) /\ CloseTo(Im(z), d.sa, Eps, 0)
       /\ Le(Abs(el), NAdd(NDiv(Pi, 2), Eps))
JudgeSph(H, c, r) ==
    LET s == H[c.s]  P == AsMat(Val(H, c.ref))  m == Len(P)  n == NSrc(s) IN
    [v |-> Chk("raised", ~IsExc(r),
           Chk("tuple", IsTup(r, 3) /\ \A i \in 1..3 : IsArrSh(r.v[i], <<m, n>>),
           LET rr == AsMat(r.v[1])  az == AsMat(r.v[2])  el == AsMat(r.v[3]) IN
           Chk("spherical-coordinates", \A i \in 1..m : \A k \in 1..n : AgreesDir(Direction(s, k, P[i]), rr[i][k], az[i][k], el[i][k]), ""))),
     o |-> r]

\* ---- from complex roots ----------------------------------------------------
\* sin(theta) = arg(z) / (2 pi d0 / lambda)
SinOfLoc(x, u) == CS(x, u).s
FreqOf(x, u, wl, d0) == CisTurn(NMul(NDiv(d0, wl), SinOfLoc(x, u)))
UnitNum(z) == NDiv(z, Abs(z))
\* is the argument of z within +- 2 pi d0 / lambda?
Visible(z, wl, d0) == Le("1/2", NDiv(d0, wl)) \/ Le(Re(CisTurn(NDiv(d0, wl))), Re(UnitNum(z)))
JudgeFromZ(H, c, r) ==
    LET z == AsVec(c.z)  wl == AsNum(c.wl)  d0 == AsNum(c.d0)  u == Opt(c, "unit", "rad") IN
    IF ~\A i \in 1..Len(z) : Visible(z[i], wl, d0)
    \* no direction has this spatial frequency: fail, or at least claim no direction for it
    THEN [v |-> IF IsExc(r) THEN "" ELSE Chk("kind-unit-shape", WellFormedSrc(r, "ff1", u, Len(z)),
                LET L == ObsLoc(r) IN
                Chk("invisible-root", \A i \in 1..Len(L) : IsFin(L[i][1]) =>
                        \E j \in 1..Len(z) : CloseTo(FreqOf(L[i][1], u, wl, d0), UnitNum(z[j]), Eps, 0), "")),
          o |-> None]
    ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
    ELSE IF ~WellFormedSrc(r, "ff1", u, Len(z)) THEN [v |-> "kind-unit-shape", o |-> None]
    ELSE LET L == ObsLoc(r)
             f == [i \in 1..Len(L) |-> FreqOf(L[i][1], u, wl, d0)]
             w == [i \in 1..Len(z) |-> UnitNum(z[i])]
         IN [v |-> Chk("finite", \A i \in 1..Len(L) : IsFin(L[i][1]),
                   Chk("sorted", \A i \in 1..(Len(L)-1) : Le(L[i][1], L[i+1][1]),
                   Chk("principal", \A i \in 1..Len(L) : Le(NMul(2, Abs(NMul(NDiv(d0, wl), SinOfLoc(L[i][1], u)))), NAdd(1, TinyTol)),
                   Chk("spatial-frequencies", PermClose(f, w, Eps), "")))),
             o |-> MkSrc("ff1", u, L)]

SrcCtors == {"ff1", "ff2", "nf2"}
\* the caller writes other coordinates into the array that `locations` gives access to: from
\* then on the placement stands for those sources (and no other value has changed)
JudgeMove(H, c, r) ==
    LET s == H[c.s]
        L == IF s.k = "ff1" THEN [i \in 1..NSrc(s) |-> << AsVec(c.v)[i] >>] ELSE AsRows(c.v)
    IN [v |-> Chk("raised", ~IsExc(r), ""), o |-> None, upd |-> c.s :> MkSrc(s.k, s.u, L)]

SourceOps == SrcCtors \cup {"sget", "sview", "sloc", "as_unit", "ssph", "from_z", "smove"}
SourceJudge(H, c, r) ==
    CASE c.op \in SrcCtors -> JudgeSrc(H, c, r)
      [] c.op = "sget"    -> JudgeGet(H, c, r)
      [] c.op = "sview"   -> [v |-> Chk("raised", ~IsExc(r), SviewOk(H[c.s], r)), o |-> None]
      [] c.op = "smove"   -> JudgeMove(H, c, r)
      [] c.op = "as_unit" -> JudgeAsUnit(H, c, r)
      [] c.op = "ssph"    -> JudgeSph(H, c, r)
      [] c.op = "from_z"  -> JudgeFromZ(H, c, r)
=============================================================================
