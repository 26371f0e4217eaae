---------------------------- MODULE MC_Sources ----------------------------
(* P06: every history of selections, conversions, observations and writes,   *)
(* over placements of each kind and unit; and every slice of a placement.     *)
EXTENDS MC
CONSTANTS Steps,   \* commands after the creation of the placement
          Wrap     \* slices start and stop in -Wrap..Wrap

Ctors == { [op |-> "ff1", v |-> VecTok(3, "-0.5 1.5707963267948966 0.25"), out |-> "s0"],
           [op |-> "ff1", v |-> VecTok(3, "-90 45 30"), unit |-> "deg", out |-> "s0"],
           [op |-> "ff1", v |-> VecTok(3, "0.5 -1 0.75"), unit |-> "sin", out |-> "s0"],
           [op |-> "ff2", v |-> MatTok(3, 2, <<"-3 0.5", "0.25 -1.5", "1 1">>), unit |-> "rad", out |-> "s0"],
           [op |-> "ff2", v |-> MatTok(3, 2, <<"-180 90", "60 -30", "0 5">>), unit |-> "deg", out |-> "s0"],
           [op |-> "nf2", v |-> MatTok(3, 2, <<"-1 2", "0.5 3", "2 -0.25">>), out |-> "s0"] }
NoneOr(S) == { None } \cup { IntV(i) : i \in S }
Slice(a, b, s) == [t |-> "slice", a |-> a, b |-> b, s |-> s]
SliceKeys == { Slice(None, None, None), Slice(None, None, IntV(-1)), Slice(IntV(1), None, None), Slice(IntV(-2), IntV(3), None), Slice(IntV(3), IntV(0), IntV(-2)) }
ListKeys  == { [t |-> "list", v |-> << IntV(-1), IntV(0) >>], [t |-> "list", v |-> << IntV(0), IntV(0) >>] }
MaskKey(n) == [t |-> "arr", sh |-> <<n>>, dt |-> "b", v |-> << RowOf([i \in 1..n |-> IF i = 2 THEN "0" ELSE "1"]) >>]
Names == << "s0", "s1", "s2", "s3", "s4" >>
Made == Len(SelectSeq(Names, LAMBDA s : s \in DOMAIN heap))
Fresh1 == Names[Made + 1]
KeysFor(s) == SliceKeys \cup (IF NSrc(s) > 0 THEN { MaskKey(NSrc(s)) } \cup ListKeys ELSE {})
Commands ==
    UNION { { [op |-> "sget", s |-> x, key |-> k, out |-> Fresh1] : k \in KeysFor(heap[x]) }
            \cup { [op |-> "as_unit", s |-> x, unit |-> u, out |-> Fresh1] : u \in Units(heap[x].k) \cup {"grad"} }
            \cup { [op |-> "sget", s |-> x, key |-> IntV(i)] : i \in {0, -NSrc(heap[x]) - 1} }
            \cup (IF x # "s0" THEN { [op |-> "spoke", s |-> x] } ELSE {}) : x \in Live("src") }
Closing(H) == LET s == SelectSeq(Names, LAMBDA x : x \in DOMAIN H /\ H[x].t = "src") IN [i \in 1..Len(s) |-> [op |-> "sview", s |-> s[i]]]
\* every slice of a placement, in one history per kind and step
SliceScript(c, st) ==
    << c >> \o SetToSeq({ [op |-> "sget", s |-> "s0", key |-> Slice(a, b, st)] : a \in NoneOr(-Wrap..Wrap), b \in NoneOr(-Wrap..Wrap) })
            \o << [op |-> "sview", s |-> "s0"] >>
Init == \/ \E c \in Ctors : StartWith(<< c >>)
        \/ \E c \in Ctors, st \in { None, IntV(1), IntV(2), IntV(3), IntV(-1), IntV(-2) } : StartWith(SliceScript(c, st)) /\ Emit(hist)
Next == /\ Len(hist) <= Steps
        /\ \E c \in Commands : Do(c, Closing(After(heap, c)))
Spec == Init /\ [][Next]_<<heap, hist>>
View == <<heap, Len(hist)>>

\* ---- what must hold -------------------------------------------------------
AlwaysInRange == \A x \in Live("src") : LET s == heap[x] IN \A i \in 1..NSrc(s) : \A j \in 1..SDim(s.k) : LET b == Bounds(s.k, s.u)[j] IN IsFin(b) => Le(Abs(s.loc[i][j]), NAdd(b, TinyTol))
Kinds == \A x \in Live("src") : heap[x].k = heap["s0"].k /\ heap[x].u \in Units(heap[x].k)
NoneChanged == [][\A x \in DOMAIN heap : heap'[x] = heap[x] \/ (Lst.op = "spoke" /\ Lst.s = x)]_<<heap, hist>>
\* a selection keeps kind and unit, and contains only rows of what it was taken from
Selects == [][(Lst.op = "sget" /\ Has(Lst, "out") /\ Lst.out \in DOMAIN heap') =>
                LET a == heap[Lst.s]  b == heap'[Lst.out] IN
                b.u = a.u /\ Range(b.loc) \subseteq Range(a.loc) /\ (Lst.key.t = "slice" => NSrc(b) <= NSrc(a))]_<<heap, hist>>
\* conversion keeps the directions, and converting back gives the same numbers
Converts == [][(Lst.op = "as_unit" /\ Lst.out \in DOMAIN heap') =>
                LET a == heap[Lst.s]  b == heap'[Lst.out] IN
                /\ b.u = Lst.unit /\ NSrc(b) = NSrc(a)
                /\ \A i \in 1..NSrc(a) : \A j \in 1..SDim(a.k) :
                     /\ SameAngle(a.loc[i][j], a.u, b.loc[i][j], b.u)
                     /\ CloseTo(Convert(b.loc[i][j], b.u, a.u), a.loc[i][j], Tok("1e-30"), Tok("1e-30"))]_<<heap, hist>>
Refuses == [][Lst.op = "as_unit" => ((Lst.out \in DOMAIN heap') <=> (Lst.unit \in Units(heap[Lst.s].k)))]_<<heap, hist>>
\* slicing in two ways gives the same rows: forwards, and backwards reversed
SliceLaw == \A a, b \in -Wrap..Wrap :
    LET n == 3  f == SliceIx(Slice(IntV(a), IntV(b), None), n) IN
    /\ f = SelectSeq(Range0(n), LAMBDA i : i >= Clip(WrapIx(a, n), 0, n) /\ i < Clip(WrapIx(b, n), 0, n))
    /\ (a \in 0..n /\ b \in 1..n /\ a > 0) => Reverse(SliceIx(Slice(IntV(b - 1), IntV(a - 1), IntV(-1)), n)) = f
=============================================================================
