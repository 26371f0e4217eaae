----------------------------- MODULE MC_Refine -----------------------------
(* P12: refinement of the estimates around every point of small grids, for   *)
(* every density and number of iterations, by every spectral estimator; and  *)
(* what refinement means, followed on the Bartlett spectrum.                 *)
EXTENDS MC
CONSTANTS Dmax, Imax
Tup(s) == [t |-> "tup", v |-> s]
Grids1 == { [op |-> "g1", unit |-> "deg", start |-> NumTok("-70"), stop |-> NumTok("77"), size |-> IntV(7), out |-> "g"],
            [op |-> "g1", unit |-> "sin", axes |-> Tup(<< VecTok(6, "-0.9 -0.5 -0.125 0.25 0.375 0.8") >>), out |-> "g"] }
Grids2 == { [op |-> "g2", unit |-> "deg", axes |-> Tup(<< VecTok(4, "-100 -25 20 110"), VecTok(3, "10 35 70") >>), out |-> "g"],
            [op |-> "gn", axes |-> Tup(<< VecTok(3, "-2 0.5 3"), VecTok(4, "1 2 3.5 6") >>), out |-> "g"] }
Wl == NumTok("1")
Arr == [op |-> "uca", n |-> 5, r |-> NumTok("0.6"), out |-> "a"]
SrcOf(g, p) == LET ob == [f \in {} |-> 0] IN
    CASE g.k = "ff1" -> [op |-> "ff1", v |-> VecTok(1, Shown(p[1])), unit |-> g.u, out |-> "s"]
      [] g.k = "ff2" -> [op |-> "ff2", v |-> MatTok(1, 2, << Shown(p[1]) \o " " \o Shown(p[2]) >>), unit |-> g.u, out |-> "s"]
      [] g.k = "nf2" -> [op |-> "nf2", v |-> MatTok(1, 2, << Shown(p[1]) \o " " \o Shown(p[2]) >>), out |-> "s"]
\* a source a little off a grid point
Off(g, q) == [j \in 1..Len(g.axes) |-> LET x == g.axes[j]  i == GCoord(GShape(g), q)[j] + 1 IN
                IF i < Len(x) THEN NAdd(x[i], NDiv(NSub(x[i + 1], x[i]), 8)) ELSE x[i]]
Kinds0 == {"bartlett", "mvdr", "music", "minnorm"}
Script(gc, q, kind, d, n, cache) ==
    LET g == NewGrid(gc).o IN
    << Arr, gc, SrcOf(g, Off(g, q)),
       [op |-> "idealcov", a |-> "a", s |-> "s", wl |-> Wl, p |-> VecTok(1, "4"), sg |-> NumTok("0.25"), out |-> "R"],
       [op |-> "mkest", k |-> kind, a |-> "a", g |-> "g", wl |-> Wl, cache |-> cache, finder |-> IF Len(g.axes) = 1 THEN "max1" ELSE "default", out |-> "e"],
       [op |-> "est", e |-> "e", R |-> Ref("R"), n |-> 1, refine |-> TRUE, density |-> d, iters |-> n, out |-> "o"],
       [op |-> "rpoke", x |-> "o"],
       [op |-> "est", e |-> "e", R |-> Ref("R"), n |-> 1, out |-> "p"],
       [op |-> "est", e |-> "e", R |-> Ref("R"), n |-> 1, refine |-> TRUE, spec |-> TRUE, density |-> d, iters |-> 1],
       [op |-> "gview", g |-> "g"] >>
Points(gc) == 1..GSize(NewGrid(gc).o)
Init == \/ \E gc \in Grids1 \cup Grids2 : \E q \in Points(gc) : \E kind \in Kinds0 : \E d \in 1..Dmax, n \in 1..Imax :
              (Len(NewGrid(gc).o.axes) = 1 \/ d * n <= 4) /\ CaseInit(Script(gc, q, kind, d, n, (q + d) % 2 = 0))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

\* refinement as the specification defines it, on the Bartlett spectrum: from the best point of the grid
g0 == heap["g"]
E0 == [heap["e"] EXCEPT !.k = "bartlett"]
R0 == IdealCov(heap["a"], heap["s"], Tok("1"), <<Tok("4")>>, Tok("0.25"))
Spect(g) == GridRaw(E0, g, R0, 1, <<>>)
BestAt(v) == CHOOSE i \in 1..Len(v) : \A j \in 1..Len(v) : Le(v[j], v[i])
RECURSIVE Path(_, _, _, _)
Path(g, q, d, n) ==      \* values and locations of the successive estimates
    LET here == << [v |-> Spect(g)[q], x |-> GPoint(g, q)] >> IN
    IF n = 0 THEN here
    ELSE LET sub == Refine(g, GCoord(GShape(g), q), d, 1) IN here \o Path(sub, BestAt(Spect(sub)), d, n - 1)
NeverWorse ==
    LET c == hist[6]
        P == Path(g0, BestAt(Spect(g0)), c.density, c.iters)
    IN hist[5].k = "bartlett" =>
         /\ \A i \in 1..(Len(P) - 1) : Le(P[i].v, P[i + 1].v)
         /\ \A i \in 1..Len(P) : \A j \in 1..Len(g0.axes) : Le(NMinSeq(g0.axes[j]), P[i].x[j]) /\ Le(P[i].x[j], NMaxSeq(g0.axes[j]))
         /\ (c.density = 1) => \A i \in 2..Len(P) : Le(P[i].v, NMaxSeq(Spect(g0)))
=============================================================================
