--------------------------- MODULE MC_Estimators ---------------------------
(* P09: all short histories of estimators that share arrays, grids and       *)
(* buffers: calls that succeed and fail, with and without refinement and     *)
(* returned spectra, over covariances that the caller refills, interleaved   *)
(* with writes to what was returned and with perturbed copies of the array.  *)
(* Estimators have no state in the specification, so paths are enumerated.   *)
EXTENDS MC
CONSTANTS Depth, Cfg      \* commands after the setup; 1..4: which estimators are set up
N1 == "0.5 2 7"
N2 == "0.3 0.8 4"
Tup(s) == [t |-> "tup", v |-> s]
Grid1 == [op |-> "g1", unit |-> "deg", start |-> NumTok("-80"), stop |-> NumTok("80"), size |-> IntV(11), out |-> "g"]
Grid2 == [op |-> "g2", unit |-> "deg", start |-> Tup(<<NumTok("-120"), NumTok("5")>>), stop |-> Tup(<<NumTok("150"), NumTok("80")>>), size |-> Tup(<<IntV(4), IntV(3)>>), out |-> "g"]
Est(k, a, cache, out) == [op |-> "mkest", k |-> k, a |-> a, g |-> "g", wl |-> NumTok("1"), cache |-> cache, out |-> out]
Root(k, out) == [op |-> "mkest", k |-> k, wl |-> NumTok("1"), out |-> out]
Pert == [form |-> "dict", items |-> << [ty |-> "gain", known |-> TRUE, par |-> VecTok(3, "0.25 -0.5 0.125")], [ty |-> "loc", known |-> TRUE, par |-> MatTok(3, 1, <<"0.125", "-0.0625", "0">>)] >>]
Arrays0 == << [op |-> "ula", n |-> 3, d0 |-> NumTok("0.5"), out |-> "a"], [op |-> "pcopy", a |-> "a", out |-> "b", pert |-> Pert] >>
Covs == << [op |-> "mkcov", out |-> "R", l |-> VecTok(3, N1), seed |-> 11, real |-> FALSE], [op |-> "mkcov", out |-> "Q", l |-> VecTok(3, N2), seed |-> 12, real |-> FALSE] >>
Pair == CASE Cfg = 1 -> << Est("music", "a", TRUE, "e"), Est("mvdr", "b", TRUE, "f") >>
          [] Cfg = 2 -> << Est("minnorm", "b", TRUE, "e"), Est("bartlett", "a", FALSE, "f") >>
          [] Cfg = 3 -> << Est("mvdr", "a", TRUE, "e"), Est("mvdr", "b", TRUE, "f") >>
          [] Cfg = 4 -> << Root("rootmusic", "e"), Root("esprit", "f") >>
          [] Cfg = 5 -> << Est("music", "b", TRUE, "e"), Est("music", "a", TRUE, "f") >>
Setup == Arrays0 \o << IF Cfg = 5 THEN Grid2 ELSE Grid1 >> \o Covs \o Pair
NS == Len(Setup)
\* observations are named after the position in the history, so that all of them can be written to
Out == "o" \o Int2Str(Len(hist))
Spectral == Cfg # 4
Outs == { x \in DOMAIN heap : SubSeq(x, 1, 1) = "o" }
Calls ==
    { [op |-> "est", e |-> e, R |-> Ref(x), n |-> 1, out |-> Out] : e \in {"e", "f"}, x \in {"R", "Q"} }
    \cup (IF Spectral
          THEN { [op |-> "est", e |-> e, R |-> Ref("R"), n |-> 1, spec |-> TRUE, out |-> Out] : e \in {"e", "f"} }
               \cup { [op |-> "est", e |-> "e", R |-> Ref("R"), n |-> 1, refine |-> TRUE, density |-> 3, iters |-> 2, out |-> Out] }
               \cup { [op |-> "est", e |-> "e", R |-> MatTok(2, 2, <<"1 0", "0 1">>), n |-> 1, refine |-> TRUE] }
          ELSE { [op |-> "est", e |-> "e", R |-> Ref("R"), n |-> n] : n \in {0, 3} }
               \cup { [op |-> "est", e |-> "f", R |-> Ref("R"), n |-> 2, form |-> "ls", disp |-> 1, out |-> Out],
                      [op |-> "est", e |-> "f", R |-> Ref("R"), n |-> 1, form |-> "ls", disp |-> 2, out |-> Out],
                      [op |-> "est", e |-> "e", R |-> Ref("Q"), n |-> 2, unit |-> "deg", out |-> Out] })
Commands == Calls
    \cup { [op |-> "refill", out |-> "R", l |-> VecTok(3, "0.2 0.6 9"), seed |-> 13, real |-> FALSE] }
    \cup { [op |-> "rpoke", x |-> x] : x \in { y \in Outs : heap[y].t # "junk" /\ y = "o" \o Int2Str(Len(hist) - 1) } }
Closing == << [op |-> "est", e |-> "e", R |-> Ref("Q"), n |-> 1, out |-> "z1"], [op |-> "est", e |-> "f", R |-> Ref("R"), n |-> 1, out |-> "z2"],
              [op |-> "aview", a |-> "a"], [op |-> "aview", a |-> "b"], [op |-> "gview", g |-> "g"] >>
Init == StartWith(Setup)
Next == Len(hist) < NS + Depth /\ \E c \in Commands : Walk(c, NS, Depth, Closing)
Spec == Init /\ [][Next]_<<heap, hist>>
\* estimators, arrays and grids are never changed; only buffers the command names are
Stateless == [][\A x \in {"a", "b", "g", "e", "f"} : heap'[x] = heap[x]]_<<heap, hist>>
OnlyNamed == [][\A x \in DOMAIN heap : heap'[x] # heap[x] => x \in MayChange(Lst) \cup (IF Has(Lst, "out") THEN {Lst.out} ELSE {})]_<<heap, hist>>
SharesNothing == [][\A x \in DOMAIN heap' : (heap'[x].t = "est" /\ Has(heap'[x], "a")) => heap'[x].a \in { heap'[y] : y \in {"a", "b"} } /\ heap'[x].g = heap'["g"]]_<<heap, hist>>
=============================================================================
