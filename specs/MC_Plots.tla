------------------------------ MODULE MC_Plots ------------------------------
(* P22: all short histories of drawings on the axes of shared figures.       *)
EXTENDS MC
CONSTANTS Kind, Depth      \* 1 arrays and coarrays, 2 spectra
Loc(known, n, d, rows) == [ty |-> "loc", known |-> known, par |-> MatTok(n, d, rows)]
P(i) == [form |-> "dict", items |-> <<i>>]
Setup1 == << [op |-> "mkfig", dims |-> <<2, 3, 2>>, out |-> "f"], [op |-> "ula", n |-> 3, d0 |-> NumTok("0.5"), out |-> "a"],
             [op |-> "pcopy", a |-> "a", out |-> "b", pert |-> P(Loc(FALSE, 3, 3, <<"0.125 -0.0625 0.25", "0 0.5 -0.125", "-0.25 0 1">>)), name |-> "B"],
             [op |-> "uca", n |-> 4, r |-> NumTok("2"), pert |-> P(Loc(TRUE, 4, 1, <<"0.125", "-0.25", "0", "0.5">>)), out |-> "c"],
             [op |-> "custom", name |-> "D", loc |-> MatTok(3, 3, <<"5 6 7", "8 6 7", "5 7 9">>), out |-> "d"] >>
Sp(rows) == VecTok(4, rows)
Setup2 == << [op |-> "mkfig", dims |-> <<2, 2>>, out |-> "f"], [op |-> "g1", unit |-> "deg", start |-> NumTok("-45"), stop |-> NumTok("60"), size |-> IntV(4), out |-> "g"],
             [op |-> "g2", unit |-> "rad", start |-> [t |-> "tup", v |-> <<NumTok("0"), NumTok("0.25")>>], stop |-> [t |-> "tup", v |-> <<NumTok("1"), NumTok("0.75")>>], size |-> [t |-> "tup", v |-> <<IntV(3), IntV(2)>>], out |-> "h"],
             [op |-> "ff1", v |-> VecTok(2, "10 -20"), unit |-> "deg", out |-> "s"], [op |-> "ff2", v |-> MatTok(1, 2, <<"0.5 0.5">>), unit |-> "rad", out |-> "u"],
             [op |-> "val", out |-> "x", v |-> Sp("1 4 2 0.5")], [op |-> "val", out |-> "y", v |-> Sp("0.25 0.125 8 3")], [op |-> "val", out |-> "z", v |-> MatTok(3, 2, <<"1 2", "5 0.5", "0.25 3">>)] >>
Setup == IF Kind = 1 THEN Setup1 ELSE Setup2
NS == Len(Setup)
On(i) == [f |-> "f", i |-> i]
Arr(a, co, err) == [op |-> "pltarr", a |-> a, co |-> co, err |-> err]
S1(sp, lab) == [op |-> "pltsp", g |-> "g", sp |-> [q \in 1..Len(sp) |-> Ref(sp[q])]] @@ (IF lab = <<>> THEN [form |-> IF Len(sp) = 1 THEN "single" ELSE "list"] ELSE [form |-> "dict", labels |-> lab])
S2 == [op |-> "pltsp", g |-> "h", form |-> "single", sp |-> <<Ref("z")>>]
UsedAxes(i) == \E q \in 1..Len(hist) : Opt(hist[q], "i", -1) = i
Commands ==
    IF Kind = 1
    THEN { Arr("a", FALSE, FALSE) @@ On(0), Arr("a", TRUE, FALSE) @@ On(2), Arr("b", FALSE, TRUE) @@ On(1), Arr("b", TRUE, TRUE) @@ On(1), Arr("b", FALSE, FALSE) @@ On(0), Arr("c", FALSE, TRUE) @@ On(0),
           Arr("c", TRUE, TRUE) @@ On(2), Arr("d", FALSE, TRUE) @@ On(1), Arr("d", TRUE, FALSE), Arr("c", FALSE, TRUE) }
    ELSE { S1(<<"x">>, <<>>) @@ On(0), S1(<<"x", "y">>, <<"one", "two">>) @@ On(0), S1(<<"y", "x">>, <<>>) @@ On(0) @@ [est |-> "s", discrete |-> TRUE], S1(<<"y">>, <<"one">>) @@ [truth |-> "s", log |-> TRUE],
           S1(<<"y">>, <<>>) @@ On(0) @@ [truth |-> "s"], S1(<<"x">>, <<"three">>) @@ On(0) @@ [est |-> "s", truth |-> "s", direct |-> TRUE],
           S1(<<"x">>, <<>>) @@ On(0) @@ [truth |-> "u"], S1(<<"x", "z">>, <<>>) @@ On(0), S2 @@ [sp |-> <<Ref("x")>>] @@ On(1) }
         \cup (IF ~UsedAxes(1) THEN { S2 @@ On(1), S2 @@ On(1) @@ [swap |-> TRUE, est |-> "u"], S2 @@ On(1) @@ [truth |-> "u", est |-> "u", log |-> TRUE] } ELSE {})
Closing == (IF Kind = 1 THEN << [op |-> "aview", a |-> "a"], [op |-> "aview", a |-> "b"], [op |-> "aview", a |-> "c"], [op |-> "aview", a |-> "d"] >> ELSE << [op |-> "gview", g |-> "g"], [op |-> "gview", g |-> "h"] >>)
           \o << [op |-> "pltclose", f |-> "f"] >>
Init == StartWith(Setup)
Next == Len(hist) < NS + Depth /\ \E c \in Commands : Walk(c, NS, Depth, Closing)
Spec == Init /\ [][Next]_<<heap, hist>>
F1 == heap["f"]
\* every legend lists things drawn on its axes; drawing named things renews it; other axes are left alone; nothing is erased
Legends == \A i \in 1..Len(F1.dims) : F1.legend[i] # <<>> => ToSet(F1.legend[i]) \subseteq ToSet(NamedLabels(F1.labels[i]))
Renewed == [][LET f == heap["f"]  g == heap'["f"] IN \A i \in 1..Len(f.dims) :
                /\ (f.labels[i] # g.labels[i] \/ f.legend[i] # g.legend[i]) => (Has(Lst, "i") /\ Lst.i = i - 1)
                /\ IsPrefix(f.labels[i], g.labels[i])
                /\ (NamedLabels(g.labels[i]) # NamedLabels(f.labels[i])) => g.legend[i] = NamedLabels(g.labels[i])]_<<heap, hist>>
NothingElse == [][\A x \in DOMAIN heap : x # "f" => heap'[x] = heap[x]]_<<heap, hist>>
=============================================================================
