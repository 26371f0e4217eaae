------------------------------- MODULE Grids -------------------------------
(***************************************************************************)
(* Search grids: [t |-> "grid", k |-> kind of the placement, u |-> unit,   *)
(*                axes |-> sequence of sequences of numbers].              *)
(***************************************************************************)
EXTENDS Steering

AxisNames(k) == CASE k = "ff1" -> <<"DOA">> [] k = "ff2" -> <<"Azimuth", "Elevation">> [] k = "nf2" -> <<"x", "y">>
MkGrid(k, u, axes) == [t |-> "grid", k |-> k, u |-> u, axes |-> axes]
GShape(g) == [i \in 1..Len(g.axes) |-> Len(g.axes[i])]
GSize(g)  == SeqProd(GShape(g))
\* start included, stop excluded
Uniform(a, b, n) == Vec(n, LAMBDA i : NAdd(a, NDiv(NMul(i - 1, NSub(b, a)), n)))
\* Cartesian product, first axis slowest (positions 1..GSize -> index per axis, from 0)
GCoord(sh, q) == IF Len(sh) = 1 THEN <<q - 1>> ELSE << (q-1) \div sh[2], (q-1) % sh[2] >>
GPos(sh, co)  == IF Len(sh) = 1 THEN co[1] + 1 ELSE co[1] * sh[2] + co[2] + 1
GPoint(g, q)  == LET co == GCoord(GShape(g), q) IN [i \in 1..Len(g.axes) |-> g.axes[i][co[i] + 1]]
GSources(g)   == MkSrc(g.k, g.u, Vec(GSize(g), LAMBDA q : GPoint(g, q)))

\* refinement of one axis around index i (from 0)
RefineAxis(x, i, density, span) ==
    LET lo == IMax(0, i - span)  hi == IMin(Len(x) - 1, i + span)
    IN Vec((hi - lo) * density + 1, LAMBDA j :
        LET k == lo + ((j-1) \div density) + 1  f == (j-1) % density
        IN IF f = 0 THEN x[k] ELSE NAdd(x[k], NMul(NDiv(f, density), NSub(x[k+1], x[k]))))
RefineAxes(g, co, density, span) == [i \in 1..Len(g.axes) |-> RefineAxis(g.axes[i], co[i], density, span)]
Refine(g, co, density, span) == MkGrid(g.k, g.u, RefineAxes(g, co, density, span))

\* ---- creation ----------------------------------------------------------------
DefBounds(k, u) ==
    CASE k = "ff1" -> << <<NNeg(Bounds(k, u)[1])>>, <<Bounds(k, u)[1]>> >>
      [] k = "ff2" -> << <<NNeg(Bounds(k, u)[1]), Tok("0")>>, Bounds(k, u) >>
\* argument forms: a number, or a tuple / list of numbers
Each(x, n) == IF x.t \in {"tup", "list"} THEN [i \in 1..n |-> x.v[i]] ELSE [i \in 1..n |-> x]
NumOf(x) == IF x.t = "int" THEN Tok(x.v) ELSE AsNum(x)
GivenAxes(c) == [i \in 1..Len(c.axes.v) |-> AsVec(c.axes.v[i])]
NewGrid(c) ==
    LET k == CASE c.op = "g1" -> "ff1" [] c.op = "g2" -> "ff2" [] c.op = "gn" -> "nf2"
        u == IF k = "nf2" THEN "m" ELSE Opt(c, "unit", "rad")
    IN IF Has(c, "axes") THEN (IF c.axes.t # "tup" THEN [err |-> "ValueError"] ELSE [err |-> "", o |-> MkGrid(k, u, GivenAxes(c))])
       ELSE IF k = "ff1"
       THEN LET st == IF Has(c, "start") THEN c.start ELSE [t |-> "num", v |-> DefBounds(k, u)[1][1]]
                sp == IF Has(c, "stop") THEN c.stop ELSE [t |-> "num", v |-> DefBounds(k, u)[2][1]]
                sz == IF Has(c, "size") THEN c.size ELSE IntV(180)
            IN IF st.t \in {"tup", "list"}
               THEN [err |-> "", o |-> MkGrid(k, u, << FoldLeft(LAMBDA acc, i : acc \o Uniform(NumOf(st.v[i]), NumOf(sp.v[i]), sz.v[i].v), <<>>, Iota(Len(st.v))) >>)]
               ELSE [err |-> "", o |-> MkGrid(k, u, << Uniform(NumOf(st), NumOf(sp), sz.v) >>)]
       ELSE LET st == IF Has(c, "start") THEN [i \in 1..2 |-> NumOf(c.start.v[i])] ELSE DefBounds(k, u)[1]
                sp == IF Has(c, "stop") THEN [i \in 1..2 |-> NumOf(c.stop.v[i])] ELSE DefBounds(k, u)[2]
                sz == IF Has(c, "size") THEN [i \in 1..2 |-> Each(c.size, 2)[i].v] ELSE <<360, 90>>
            IN [err |-> "", o |-> MkGrid(k, u, [i \in 1..2 |-> Uniform(st[i], sp[i], sz[i])])]

\* ---- observation ---------------------------------------------------------------
ObsAxes(r) == [i \in 1..Len(r.axes) |-> AsVec(r.axes[i])]
AxisClose(x, y) == Len(x) = Len(y) /\ (Len(y) = 0 \/ VecClose(x, y, TinyTol))
ViewGrid(g, r) ==
    Chk("is-grid", r.t = "grid",
    Chk("kind", r.k = g.k,
    Chk("units", r.units = UnitTuple(g.k, g.u),
    Chk("axis-names", r.names = AxisNames(g.k),
    Chk("ndim", r.ndim = IntV(Len(g.axes)),
    Chk("shape", r.shape = GShape(g) /\ r.size = IntV(GSize(g)),
    Chk("axes", Len(r.axes) = Len(g.axes) /\ \A i \in 1..Len(g.axes) : IsVecV(r.axes[i]) /\ AxisClose(AsVec(r.axes[i]), g.axes[i]), "")))))))
\* the abstract grid continues with the observed (rounded) axes
Observed(g, r) == [g EXCEPT !.axes = ObsAxes(r)]
ViewGridSrc(g, r) ==
    LET S == GSources(g) IN
    Chk("source-kind", r.src.t = "src" /\ r.src.k = g.k /\ r.src.units = UnitTuple(g.k, g.u),
    Chk("source-count", WellFormedSrc(r.src, g.k, g.u, GSize(g)),
    Chk("source-placement", ObsLoc(r.src) = S.loc, "")))

JudgeNewGrid(c, r) ==
    LET n == NewGrid(c) IN
    IF n.err # "" THEN Rejected(r, n.err)
    ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
    ELSE LET w == ViewGrid(n.o, r) IN [v |-> w, o |-> IF w = "" THEN Observed(n.o, r) ELSE n.o]
Dens(c) == Opt(c, "density", 10)
Span(c) == Opt(c, "span", 1)
JudgeRefine(H, c, r) ==
    LET g == H[c.g] IN
    IF Dens(c) < 1 \/ Span(c) < 1 \/ Len(c.coord) # Len(g.axes) THEN Rejected(r, "ValueError")
    ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
    ELSE LET n == Refine(g, c.coord, Dens(c), Span(c)) IN
         IF c.op = "grefax"
         THEN [v |-> Chk("tuple", r.t = "tup" /\ Len(r.v) = Len(n.axes),
                     Chk("axes", \A i \in 1..Len(n.axes) : IsVecV(r.v[i]) /\ AxisClose(AsVec(r.v[i]), n.axes[i]), "")), o |-> r]
         ELSE LET w == ViewGrid(n, r) IN [v |-> w, o |-> IF w = "" THEN Observed(n, r) ELSE n]
\* coords: one index sequence per axis
JudgeRefines(H, c, r) ==
    LET g == H[c.g] IN
    IF (Dens(c) < 1 \/ Span(c) < 1) /\ Len(c.coords[1]) > 0 THEN Rejected(r, "ValueError")
    ELSE [v |-> Chk("raised", ~IsExc(r),
                Chk("list", r.t = "list" /\ Len(r.v) = Len(c.coords[1]),
                LET bad == SelectSeq([i \in 1..Len(r.v) |-> ViewGrid(Refine(g, [j \in 1..Len(c.coords) |-> c.coords[j][i]], Dens(c), Span(c)), r.v[i])],
                                     LAMBDA x : x # "")
                IN IF bad = <<>> THEN "" ELSE "item-" \o bad[1])), o |-> r]
GridOps == {"g1", "g2", "gn", "gref", "grefax", "grefs", "gview", "gsrc"}
GridJudge(H, c, r) ==
    CASE c.op \in {"g1", "g2", "gn"} -> JudgeNewGrid(c, r)
      [] c.op \in {"gref", "grefax"} -> JudgeRefine(H, c, r)
      [] c.op = "grefs" -> JudgeRefines(H, c, r)
      \* the points of the grid, as the placement other parts of the library are given
      [] c.op = "gsrc" -> [v |-> Chk("raised", ~IsExc(r), ViewGridSrc(H[c.g], [src |-> r])), o |-> GSources(H[c.g])]
      [] c.op = "gview" -> [v |-> Chk("raised", ~IsExc(r), Chk("grid", ViewGrid(H[c.g], r) = "", ViewGridSrc(H[c.g], r))), o |-> None]
=============================================================================
