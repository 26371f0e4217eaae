------------------------------ MODULE MC_Grids ------------------------------
(* P07: every history of refinements of small grids of one and two           *)
(* dimensions, uniform, piecewise uniform and irregular.                     *)
EXTENDS MC
CONSTANTS Depth,    \* refinements of refinements
          Dmax, Smax   \* densities 1..Dmax, spans 1..Smax
Tup(s) == [t |-> "tup", v |-> s]
Ctors == { [op |-> "g1", start |-> NumTok("-0.5"), stop |-> NumTok("1"), size |-> IntV(4), out |-> "g0"],
           [op |-> "g1", unit |-> "deg", start |-> Tup(<<NumTok("-60"), NumTok("10")>>), stop |-> Tup(<<NumTok("-20"), NumTok("70")>>), size |-> Tup(<<IntV(2), IntV(3)>>), out |-> "g0"],
           [op |-> "g1", unit |-> "sin", axes |-> Tup(<< VecTok(3, "-0.75 0.125 0.25") >>), out |-> "g0"],
           [op |-> "g1", size |-> IntV(1), out |-> "g0"],
           [op |-> "g2", unit |-> "deg", size |-> Tup(<<IntV(3), IntV(2)>>), out |-> "g0"],
           [op |-> "g2", axes |-> Tup(<< VecTok(2, "-1 2"), VecTok(3, "-0.5 0.25 1") >>), out |-> "g0"],
           [op |-> "gn", start |-> Tup(<<NumTok("-2"), NumTok("0")>>), stop |-> Tup(<<NumTok("2"), NumTok("3")>>), size |-> IntV(2), out |-> "g0"] }
Names == << "g0", "g1", "g2", "g3" >>
Made == Len(SelectSeq(Names, LAMBDA s : s \in DOMAIN heap))
NewestGrid == Names[Made]
NextGrid == Names[Made + 1]
Coords(g) == LET sh == GShape(g) IN IF Len(sh) = 1 THEN { <<i>> : i \in 0..(sh[1] - 1) } ELSE { <<i, j>> : i \in 0..(sh[1] - 1), j \in 0..(sh[2] - 1) }
Some(S, g) == IF GSize(g) <= 6 THEN S ELSE { co \in S : \A j \in 1..Len(co) : co[j] \in {0, 1, Len(g.axes[j]) - 1} }
Commands ==
    LET g == heap[NewestGrid] IN
    { [op |-> "gref", g |-> NewestGrid, coord |-> co, density |-> d, span |-> s, out |-> NextGrid] : co \in Some(Coords(g), g), d \in 1..Dmax, s \in 1..Smax }
    \cup { [op |-> "gref", g |-> NewestGrid, coord |-> co, density |-> d, span |-> s, out |-> NextGrid] :
             co \in { [j \in 1..Len(g.axes) |-> 0], [j \in 1..(3 - Len(g.axes)) |-> 0] }, d \in {0, 1}, s \in {0, 1} }
Same(H, n) == [i \in 1..n |-> [op |-> "gview", g |-> Names[i]]]
Closing(c) ==
    LET g == heap[NewestGrid]  co == c.coord  n == Made + (IF c.out \in DOMAIN After(heap, c) THEN 1 ELSE 0) IN
    (IF Len(co) = Len(g.axes)
     THEN << [op |-> "grefax", g |-> NewestGrid, coord |-> co, density |-> c.density, span |-> c.span],
             [op |-> "grefs", g |-> NewestGrid, coords |-> [j \in 1..Len(co) |-> <<co[j], 0>>], density |-> c.density, span |-> c.span, nd |-> (c.density = 2)] >>
     ELSE <<>>) \o Same(heap, n)
Init == \E c \in Ctors : StartWith(<< c >>) /\ Emit(<< c, [op |-> "gview", g |-> "g0"] >>)
Next == Made <= Depth /\ GSize(heap[NewestGrid]) <= 40 /\ \E c \in Commands : Do(c, Closing(c))
Spec == Init /\ [][Next]_<<heap, hist>>
View == heap

Old == heap[Lst.g]
New == heap'[Lst.out]
Axes == 1..Len(Old.axes)
Refined == Lst.op = "gref" /\ Lst.out \in DOMAIN heap'
Ok(P(_)) == Refined => \A j \in Axes : P(j)
Increasing == \A x \in Live("grid") : \A j \in 1..Len(heap[x].axes) : \A i \in 1..(Len(heap[x].axes[j]) - 1) : Lt(heap[x].axes[j][i], heap[x].axes[j][i + 1])
\* the refined axis starts and ends at points of the old one, at most span steps away from the chosen point, contains
\* every old point in between, and divides each old interval into density equal parts
Lo(j) == IMax(0, Lst.coord[j] - Lst.span) + 1
Hi(j) == IMin(Len(Old.axes[j]) - 1, Lst.coord[j] + Lst.span) + 1
RefineLaw == [][Ok(LAMBDA j :
    LET x == Old.axes[j]  y == New.axes[j]  d == Lst.density IN
    /\ Len(y) = (Hi(j) - Lo(j)) * d + 1
    /\ NEq(y[1], x[Lo(j)]) /\ NEq(y[Len(y)], x[Hi(j)])
    /\ \A i \in Lo(j)..Hi(j) : NEq(y[(i - Lo(j)) * d + 1], x[i])
    /\ \A i \in 1..(Len(y) - 1) : CloseTo(NMul(d, NSub(y[i + 1], y[i])), LET q == Lo(j) + ((i - 1) \div d) IN NSub(x[q + 1], x[q]), Tok("1e-30"), Tok("1e-30"))
    /\ \E i \in 1..Len(y) : NEq(y[i], x[Lst.coord[j] + 1]))]_<<heap, hist>>
Keeps == [][Refined => New.k = Old.k /\ New.u = Old.u /\ Len(New.axes) = Len(Old.axes)]_<<heap, hist>>
OthersKept == [][\A x \in DOMAIN heap : heap'[x] = heap[x]]_<<heap, hist>>
RejectLaw == [][Refined <=> (Lst.density >= 1 /\ Lst.span >= 1 /\ Len(Lst.coord) = Len(Old.axes))]_<<heap, hist>>
\* points: first axis slowest, as many as the product of the shape, each axis value used equally often
PointLaw == \A x \in Live("grid") :
    LET g == heap[x]  S == GSources(g).loc IN
    /\ Len(S) = GSize(g)
    /\ \A q \in 1..GSize(g) : GPos(GShape(g), GCoord(GShape(g), q)) = q
    /\ Cardinality(Range(S)) = GSize(g)
=============================================================================
