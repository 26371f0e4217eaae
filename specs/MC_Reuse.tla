------------------------------ MODULE MC_Reuse ------------------------------
(* P04, P05, P06: placements and arrays that have been used are the values    *)
(* they are: selections, conversions and copies made of them afterwards, and  *)
(* the placements themselves after the caller moved their sources, behave     *)
(* like newly made ones, and the other way round.                             *)
EXTENDS MC
CONSTANTS Deriv, Full

Arrs == << [op |-> "ula", n |-> 3, d0 |-> NumTok("0.5"), out |-> "a"],
           [op |-> "custom", name |-> "c", loc |-> MatTok(3, 3, <<"0.25 -1 0.5", "1 0.5 -0.25", "-0.75 0.125 2">>), out |-> "a"] >>
Srcs == << [op |-> "ff1", v |-> VecTok(3, "-60 7.5 80"), unit |-> "deg", out |-> "s"], [op |-> "ff1", v |-> VecTok(3, "0.3 -1.1 0.7"), unit |-> "rad", out |-> "s"],
           [op |-> "ff1", v |-> VecTok(3, "-0.25 0.875 0.5"), unit |-> "sin", out |-> "s"],
           [op |-> "ff2", v |-> MatTok(3, 2, <<"-120 30", "45 -75", "10 0">>), unit |-> "deg", out |-> "s"], [op |-> "ff2", v |-> MatTok(3, 2, <<"2.5 0.4", "-0.75 1.25", "1 -0.5">>), unit |-> "rad", out |-> "s"],
           [op |-> "nf2", v |-> MatTok(3, 2, <<"2 -3.5", "-0.5 1.75", "40 60">>), out |-> "s"] >>
MovedTo(i) == IF i <= 3 THEN VecTok(3, << "5 -33 62.5", "1.25 0.5 -0.125", "0.0625 -0.75 0.3" >>[i])
            ELSE MatTok(3, 2, << << "90 -10", "-33 5", "170 80" >>, << "0.5 -1", "3 0.25", "-2 0.75" >>, << "3 1", "-7 2.5", "0.25 -4" >> >>[i - 3])
OneD(i) == i <= 3
Loc == MatTok(2, 2, << "0.25 -1", "1.5 0.5" >>)
\* ways to use placement q
D == IF Deriv THEN [deriv |-> TRUE] ELSE [flatten |-> TRUE]
PD == IF Deriv THEN [deriv |-> TRUE] ELSE [o |-> 0]
Use(u, q, ar, wl) ==
    CASE u = "steer" -> << [op |-> "steer", a |-> ar, s |-> q, wl |-> NumTok(wl)] @@ D >>
      [] u = "pdm"   -> << [op |-> "pdm", s |-> q, wl |-> NumTok(wl), loc |-> Loc] @@ PD >>
      [] u = "sph"   -> << [op |-> "ssph", s |-> q, ref |-> Loc] >>
      [] u = "conv"  -> << [op |-> "as_unit", s |-> q, unit |-> "rad"] >>
      [] u = "view"  -> << [op |-> "sview", s |-> q] >>
Uses == {"steer", "pdm"} \cup (IF Deriv THEN {} ELSE {"sph", "view"})
\* ways to make placement t (of one or more sources) from s
Slice(a, b, st) == [t |-> "slice", a |-> a, b |-> b, s |-> st]
Keys == << Slice(IntV(1), None, None), Slice(None, None, IntV(-1)), [t |-> "list", v |-> << IntV(2), IntV(0) >>],
           [t |-> "arr", sh |-> <<3>>, dt |-> "b", v |-> << "0 1 1" >>], [t |-> "arr", sh |-> <<4>>, dt |-> "i", v |-> << "1 1 0 -1" >>] >>
Derive(d, i) == IF d <= Len(Keys) THEN << [op |-> "sget", s |-> "s", key |-> Keys[d], out |-> "t"] >>
                ELSE IF d = Len(Keys) + 1 THEN << [op |-> "as_unit", s |-> "s", unit |-> IF i = 6 THEN "m" ELSE IF i \in {1, 4} THEN "rad" ELSE "deg", out |-> "t"] >>
                ELSE << [op |-> "as_unit", s |-> "s", unit |-> << "deg", "rad", "sin", "deg", "rad", "m" >>[i], out |-> "t"] >>
GainE == [ty |-> "gain", known |-> TRUE, par |-> VecTok(3, "0.25 -0.5 0.125")]
LocE1  == [ty |-> "loc", known |-> FALSE, par |-> MatTok(3, 2, << "0.0625 -0.125", "-0.25 0.5", "0 0.125" >>)]
LocE2  == [ty |-> "loc", known |-> TRUE, par |-> MatTok(3, 1, << "-0.5", "0.75", "0.125" >>)]
ListOf(ps) == [form |-> "list", items |-> ps]
Copies(d) == IF d % 2 = 0 THEN << [op |-> "pcopy", a |-> "a", pert |-> ListOf(<<LocE1, GainE>>), out |-> "b"], [op |-> "pcopy", a |-> "b", pert |-> ListOf(<<LocE2>>), out |-> "c"] >>
             ELSE << [op |-> "pcopy", a |-> "a", pert |-> ListOf(<<LocE2>>), out |-> "b"], [op |-> "fcopy", a |-> "b", out |-> "c"] >>
Script(x) ==
    LET ar == Arrs[x[1]]  i == x[2]  u == x[3]  d == x[4]  w == x[5] IN
    << ar, Srcs[i] >> \o Use(u, "s", "a", "0.5") \o Derive(d, i) \o Use(w, "t", "a", "0.5") \o Use(u, "t", "a", "1.25")
    \o Copies(d) \o Use("steer", "s", "b", "0.5") \o Use("steer", "t", "c", "0.5")
    \o << [op |-> "smove", s |-> "s", v |-> MovedTo(i)] >> \o Use(u, "s", "a", "0.5") \o Use(w, "t", "a", "0.5")
    \o Use("steer", "s", "c", "1.25") \o Derive(d, i) \o Use(w, "t", "b", "1.25") \o Use(u, "s", "a", "1.25")
    \o << [op |-> "sview", s |-> "s"], [op |-> "sview", s |-> "t"], [op |-> "aview", a |-> "a"], [op |-> "aview", a |-> "b"] >>
Cases == { x \in (1..Len(Arrs)) \X { i \in 1..Len(Srcs) : Deriv => OneD(i) } \X Uses \X (1..(Len(Keys) + 2)) \X Uses :
             Full \/ (x[1] + x[2] + x[4]) % 2 = 0 }
Init == \E x \in Cases : CaseInit(Script(x))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

\* ---- laws (of the final heap: s has been moved, t was made from it afterwards) ----
Sr == heap["s"]
Tr == heap["t"]
Kinds == Tr.k = Sr.k
\* steering the selection gives columns of the whole; a conversion leaves the matrix alone
Wl == Tok("0.8")
W(q) == Wave(q, heap["a"].loc, Wl)
Columns == Law("Columns", LET A == W(Sr)  B == W(Tr) IN
    \A k \in 1..NSrc(Tr) : \E l \in 1..NSrc(Sr) : \A i \in 1..Size(heap["a"]) : CloseTo(B[i][k], A[i][l], TinyTol, TinyTol))
Arrays == Law("Arrays", heap["a"].pert = <<>> /\ heap["b"].loc = heap["a"].loc /\ heap["c"].loc = heap["a"].loc)
=============================================================================
