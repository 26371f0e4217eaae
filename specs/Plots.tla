-------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* Plots.  An abstract figure is [t |-> "fig", dims |-> dimension of each  *)
(* of its axes, labels |-> labels of what was drawn on each of them,       *)
(* legend |-> legend entries of each of them].  An observation lists what  *)
(* the call has drawn: items, each with its data, and everything drawn     *)
(* that is not part of the returned handles (extra).                       *)
(***************************************************************************)
EXTENDS Utils

Dim2(d) == IF d = 3 THEN 3 ELSE 2
PlotTol == Tok("1e-9")
SamePoint(u, v, tol) == \A i \in 1..Len(u) : CloseTo(u[i], v[i], tol, Tok("0"))
\* every drawn point is wanted, every wanted one is drawn, none more often than wanted
PointSet(D, W, tol) ==
    /\ Len(D) = Len(W)
    /\ \A i \in 1..Len(W) : Cardinality({ j \in 1..Len(D) : SamePoint(D[j], W[i], tol) }) = Cardinality({ j \in 1..Len(W) : SamePoint(W[j], W[i], tol) })
\* distinct differences (those of the plotted arrays are far apart or equal up to rounding)
RECURSIVE Distinct(_, _, _)
Distinct(L, acc, tol) == IF L = <<>> THEN acc
                    ELSE Distinct(Tail(L), IF \E i \in 1..Len(acc) : SamePoint(acc[i], L[1], tol) THEN acc ELSE Append(acc, L[1]), tol)
CoPoints(L) == Distinct(LocDiffs(L), <<>>, NMul(Tok("1e-7"), NAdd(MaxAbs(L), Tok("1e-300"))))
HasLoc(a) == \E i \in 1..Len(a.pert) : a.pert[i].ty = "loc"
Fresh == [t |-> "fig", dims |-> <<2>>, labels |-> << <<>> >>, legend |-> << <<>> >>]

ItemXY(x, n) == IF x.xy.sh[1] = 0 THEN <<>> ELSE AsMat(x.xy)
\* every drawn point is inside the limits of the axes
InView(it, lims, n) ==
    \A j \in 1..Len(ItemXY(it, n)) : \A q \in 1..n :
        LET lo == lims[q][1]  hi == lims[q][2]  e == NMul(PlotTol, NAdd(Abs(lo), Abs(hi)))  x == ItemXY(it, n)[j][q] IN
        Le(NSub(NMin(lo, hi), e), x) /\ Le(x, NAdd(NMax(lo, hi), e))
\* the three axes of space have the same scale
Cubic(lims) == \A q \in 1..3 : CloseTo(NSub(lims[q][2], lims[q][1]), NSub(lims[1][2], lims[1][1]), 0, Tok("1e-3"))
\* legend entries in any order
SameEntries(x, y) == Len(x) = Len(y) /\ \A e \in ToSet(y) : Cardinality({ i \in 1..Len(x) : x[i] = e }) = Cardinality({ i \in 1..Len(y) : y[i] = e })
Frame(c, r) == /\ r.t = "plot" /\ r.ax /\ r.others /\ r.kept
               /\ r.newfigs = (IF Has(c, "f") THEN 0 ELSE 1)
               \* drawing on axes of the caller leaves it to the caller to show the figure
               /\ Has(c, "f") => r.shown = 0
NamedLabels(ls) == SelectSeq(ls, LAMBDA s : s # "")
\* the figure after drawing items with these labels on axes i, renewing the legend or not
Drawn(fg, i, ls, renew) ==
    LET all == fg.labels[i] \o ls IN
    [fg EXCEPT !.labels[i] = all, !.legend[i] = IF renew THEN NamedLabels(all) ELSE fg.legend[i]]

JudgePltArr(H, c, r) ==
    LET a == H[c.a]
        err == Opt(c, "err", FALSE) /\ HasLoc(a)
        act == ActualLoc(a)
        d == IF Has(c, "f") THEN H[c.f].dims[c.i + 1] ELSE Dim2(IF err THEN Len(act[1]) ELSE Dim(a))
        P(L) == LET Q == IF c.co THEN CoPoints(L) ELSE L IN Vec(Len(Q), LAMBDA i : PadTo(Q[i], d))
        W == << <<"Nominal locations", P(a.loc)>> >> \o (IF err THEN << <<"Actual locations", P(act)>> >> ELSE <<>>)
        ls == [i \in 1..Len(W) |-> W[i][1]]
        i0 == IF Has(c, "f") THEN c.i + 1 ELSE 1
        fg == Drawn(IF Has(c, "f") THEN H[c.f] ELSE Fresh, i0, ls, TRUE)
        tol(L) == NMul(PlotTol, NAdd(NAdd(MaxAbs(L), MaxAbs(a.loc)), Tok("1e-300")))
        v == Chk("axes", Frame(c, r),
             Chk("extra", r.extra = <<>>,
             Chk("items", Len(r.items) = Len(W) /\ \A i \in 1..Len(W) : r.items[i].k = "points" /\ r.items[i].label = W[i][1],
             Chk("points", \A i \in 1..Len(W) : r.items[i].xy.sh = <<Len(W[i][2]), d>> /\ PointSet(ItemXY(r.items[i], d), W[i][2], tol(W[i][2])),
             Chk("order", c.co \/ \A i \in 1..Len(W) : \A j \in 1..Len(W[i][2]) : SamePoint(ItemXY(r.items[i], d)[j], W[i][2][j], tol(W[i][2])),
             Chk("view", LET L == AsMat(r.lims) IN (d = 3 => Cubic(L)) /\ \A i \in 1..Len(W) : InView(r.items[i], L, d),
             Chk("axis-labels", r.xlabel = "x" /\ r.ylabel = "y" /\ r.d3 = (d = 3) /\ (d = 3 => r.zlabel = "z"),
             Chk("legend", SameEntries(r.legend, fg.legend[i0]), ""))))))))
    IN IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE IF Has(c, "f") THEN [v |-> v, o |-> None, upd |-> c.f :> fg] ELSE [v |-> v, o |-> None]

\* ---- spectra ------------------------------------------------------------------------
Normalised(s) == LET m == NMaxSeq(s) IN IF Lt(0, m) THEN Vec(Len(s), LAMBDA i : NDiv(s[i], m)) ELSE s
AxisLabel(g, i) == AxisNames(g.k)[i] \o "/" \o g.u
SpOk(c, H) == c.form \in {"single", "list", "tuple", "dict"} /\ Len(c.sp) > 0 /\ \A i \in 1..Len(c.sp) : Val(H, c.sp[i]).sh = GShape(H[c.g])
UnitOk(c, H) == \A f \in {"est", "truth"} : Has(c, f) => UnitTuple(H[c[f]].k, H[c[f]].u) = UnitTuple(H[c.g].k, H[c.g].u)
StemsFrom(x) == \* every stem is vertical
    LET S == IF x.segs.sh[1] = 0 THEN <<>> ELSE AsMat(x.segs) IN \A i \in 1..Len(S) : NEq(S[i][1], S[i][3])
StemTops(x) == LET S == IF x.segs.sh[1] = 0 THEN <<>> ELSE AsMat(x.segs) IN [i \in 1..Len(S) |-> <<S[i][3], S[i][4]>>]
Curve(x, y) == Vec(Len(x), LAMBDA i : <<x[i], y[i]>>)
SameCurve(M, W) == Len(M) = Len(W) /\ \A i \in 1..Len(W) : CloseTo(M[i][1], W[i][1], 0, TinyTol) /\ CloseTo(M[i][2], W[i][2], 0, TinyTol)
Sources1(s) == Vec(NSrc(s), LAMBDA i : <<s.loc[i][1], Tok("1")>>)
Marks(c, H) == (IF Has(c, "est") THEN << <<"Estimates", H[c.est]>> >> ELSE <<>>) \o (IF Has(c, "truth") THEN << <<"Ground truth", H[c.truth]>> >> ELSE <<>>)

ViewEps(L) == NMul(PlotTol, NAdd(Abs(L[1]), Abs(L[2])))
JudgePlt1(H, c, r) ==
    LET g == H[c.g]  x == g.axes[1]
        lab(i) == IF c.form = "dict" THEN c.labels[i] ELSE ""
        disc == Opt(c, "discrete", FALSE)  log == Opt(c, "log", FALSE)
        n == Len(c.sp)  M == Marks(c, H)
        ls == [i \in 1..n |-> lab(i)] \o [i \in 1..Len(M) |-> M[i][1]]
        i0 == IF Has(c, "f") THEN c.i + 1 ELSE 1
        renew == NamedLabels(ls) # <<>>
        fg == Drawn(IF Has(c, "f") THEN H[c.f] ELSE Fresh, i0, ls, renew)
        spv(i) == LET it == r.items[i]  W == Curve(x, Normalised(AsVec(Val(H, c.sp[i])))) IN
                  IF disc THEN it.k = "stem" /\ StemsFrom(it) /\ SameCurve(StemTops(it), W) /\ SameCurve(AsMat(it.xy), W)
                  ELSE it.k = "line" /\ it.drawn /\ SameCurve(AsMat(it.xy), W)
        mkv(i) == LET it == r.items[n + i]  W == Sources1(M[i][2]) IN
                  it.k = "stem" /\ it.label = M[i][1] /\ StemsFrom(it) /\ SameCurve(StemTops(it), W) /\ SameCurve(AsMat(it.xy), W)
        v == Chk("axes", Frame(c, r),
             Chk("handles", r.extra = <<>> /\ r.absent = 0 /\ Len(r.items) = n + Len(M),
             Chk("spectra", \A i \in 1..n : spv(i),
             Chk("labels", \A i \in 1..n : lab(i) # "" => r.items[i].label = lab(i),
             Chk("marks", \A i \in 1..Len(M) : mkv(i),
             Chk("axis-labels", r.xlabel = AxisLabel(g, 1) /\ r.ylabel # "",
             Chk("scale", r.ylog = log,
             Chk("view", LET L == AsMat(r.lims)[1] IN Le(NMin(L[1], L[2]), NAdd(NMinSeq(x), ViewEps(L))) /\ Le(NSub(NMaxSeq(x), ViewEps(L)), NMax(L[1], L[2])),
             Chk("from-zero", (~log /\ \A i \in 1..n : Lt(0, NMaxSeq(AsVec(Val(H, c.sp[i]))))) => NEq(AsNum(r.ylow), 0),
             Chk("legend", SameEntries(r.legend, fg.legend[i0]), ""))))))))))
    IN IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE IF Has(c, "f") THEN [v |-> v, o |-> None, upd |-> c.f :> fg] ELSE [v |-> v, o |-> None]

JudgePlt2(H, c, r) ==
    LET g == H[c.g]  sw == Opt(c, "swap", FALSE)
        ix == IF sw THEN 2 ELSE 1  iy == 3 - ix
        S == AsMat(Val(H, c.sp[1]))
        W == IF sw THEN S ELSE Trans(S)
        M == Marks(c, H)
        ls == [i \in 1..Len(M) |-> M[i][1]]
        i0 == IF Has(c, "f") THEN c.i + 1 ELSE 1
        fg == Drawn(IF Has(c, "f") THEN H[c.f] ELSE Fresh, i0, ls, Len(M) > 0)
        im == r.items[1]
        \* the cells follow the axes: row and column of the image run from the first to the last point of the axes, or both backwards
        Ends(ax, back) == IF back THEN << ax[Len(ax)], ax[1] >> ELSE << ax[1], ax[Len(ax)] >>
        Turned(X, bx, by) == LET a == Len(X)  b == Len(X[1]) IN Mat(a, b, LAMBDA i, j : X[IF by THEN a + 1 - i ELSE i][IF bx THEN b + 1 - j ELSE j])
        Placed(bx, by) == /\ MatCloseAR(AsMat(im.data), Turned(W, bx, by), 0, TinyTol)
                          /\ VecCloseAR(AsVec(im.extent), Ends(g.axes[ix], bx) \o Ends(g.axes[iy], by), 0, TinyTol)
        Monotone(ax) == NonDecreasingV(ax) \/ NonDecreasingV(Reverse(ax))
        ordered == Monotone(g.axes[1]) /\ Monotone(g.axes[2])      \* others have no image
        mkv(i) == LET it == r.items[1 + i]  L == M[i][2].loc IN
                  it.k = "points" /\ it.label = M[i][1] /\ it.xy.sh = <<Len(L), 2>> /\
                  SameCurve(AsMat(it.xy), Vec(Len(L), LAMBDA j : <<L[j][ix], L[j][iy]>>))
        v == Chk("axes", Frame(c, r),
             Chk("handles", r.extra = <<>> /\ r.absent = 0 /\ Len(r.items) = 1 + Len(M),
             Chk("image", im.k = "image" /\ im.data.sh = Shape(W),
             Chk("orientation", im.origin = "lower" /\ (ordered => \E bx, by \in BOOLEAN : Placed(bx, by)),
             Chk("scale", im.log = Opt(c, "log", FALSE),
             Chk("colours", im.cmap = Opt(c, "cmap", "jet"),
             Chk("marks", \A i \in 1..Len(M) : mkv(i),
             Chk("axis-labels", r.xlabel = AxisLabel(g, ix) /\ r.ylabel = AxisLabel(g, iy),
             Chk("legend", SameEntries(r.legend, fg.legend[i0]), "")))))))))
    IN IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE IF Has(c, "f") THEN [v |-> v, o |-> None, upd |-> c.f :> fg] ELSE [v |-> v, o |-> None]

JudgePltSp(H, c, r) ==
    IF ~SpOk(c, H) THEN Rejected(r, "ValueError")
    ELSE IF ~UnitOk(c, H) THEN Rejected(r, "ValueError")
    ELSE LET j == IF Len(H[c.g].axes) = 1 THEN JudgePlt1(H, c, r) ELSE JudgePlt2(H, c, r) IN
         IF j.v = "" /\ Has(c, "size") /\ ~Has(c, "f")
         THEN [j EXCEPT !.v = Chk("figure-size", VecClose(AsVec(r.size), <<Tok(ToString(c.size[1])), Tok(ToString(c.size[2]))>>, TinyTol), "")]
         ELSE j
PlotOps == {"mkfig", "pltarr", "pltsp", "pltclose"}
PlotJudge(H, c, r) ==
    CASE c.op = "mkfig" -> [v |-> "", o |-> [t |-> "fig", dims |-> c.dims, labels |-> [i \in 1..Len(c.dims) |-> <<>>], legend |-> [i \in 1..Len(c.dims) |-> <<>>]]]
      [] c.op = "pltclose" -> [v |-> "", o |-> None]
      [] c.op = "pltarr" -> JudgePltArr(H, c, r)
      [] c.op = "pltsp"  -> JudgePltSp(H, c, r)
=============================================================================
