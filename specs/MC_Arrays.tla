------------------------------ MODULE MC_Arrays ------------------------------
(* P02: every sequence of copies, reads and writes over a few arrays.        *)
EXTENDS MC
CONSTANT Slots,    \* how many copies may be made
         Reads     \* TRUE: matrices are also read and overwritten

Setup == <<
    [op |-> "ula", n |-> 2, d0 |-> NumTok("0.5"), out |-> "a"],
    [op |-> "ura", m |-> 1, n |-> 2, d0 |-> NumTok("0.5"), name |-> "rect", out |-> "b",
     pert |-> [form |-> "dict", items |-> << [ty |-> "gain", known |-> FALSE, par |-> VecTok(2, "0.25 -0.5")],
                                             [ty |-> "loc", known |-> TRUE, par |-> MatTok(2, 1, <<"0.125", "-0.25">>)] >>]],
    [op |-> "mkpert", ty |-> "loc", known |-> FALSE, par |-> MatTok(2, 3, <<"0.5 0.25 1", "0 0 -1">>), out |-> "p"],
    [op |-> "mkpert", ty |-> "mc", known |-> TRUE, par |-> CMatTok(2, 2, <<"1,0 0.125,0.25", "0,-0.5 1,0">>), out |-> "q"] >>
G(k, row) == [ty |-> "gain", known |-> k, par |-> VecTok(2, row)]
F(k, row) == [ty |-> "phase", known |-> k, par |-> VecTok(2, row)]
Menu == { << G(TRUE, "0.5 0.75") >>, << G(FALSE, "0.25 -0.5"), F(TRUE, "1 2") >>, << [ref |-> "p"] >>,
          << [ref |-> "q"], F(FALSE, "0.5 -0.5") >>, << F(TRUE, "0 0"), [ref |-> "p"], [ref |-> "q"], G(TRUE, "1 -0.25") >>, << >>,
          << G(TRUE, "0.5 0.5"), [ty |-> "scale", known |-> FALSE, par |-> VecTok(2, "2 -0.5")], [ty |-> "gain2", known |-> TRUE, par |-> VecTok(2, "1 0.25")] >>,   \* types of the user
          << F(TRUE, "1 2"), [ty |-> "gain", known |-> TRUE, par |-> VecTok(3, "1 2 3")] >>,    \* wrong size, after a good one
          << [ty |-> "gain", known |-> TRUE, par |-> MatTok(1, 2, <<"1 2">>)] >> }             \* malformed
SlotNames == << "c", "d", "e", "f" >>
Made == Len(SelectSeq(SlotNames, LAMBDA s : s \in DOMAIN heap))
NextSlot == SlotNames[Made + 1]
Form(items) == IF \A i \in 1..Len(items) : ~Has(items[i], "ref") /\ items[i].ty \notin {"scale", "gain2"} THEN {"dict", "list"} ELSE {"list"}
FormOf(items) == IF Len(items) % 2 = 1 /\ "dict" \in Form(items) THEN "dict" ELSE "list"
Commands ==
    (IF Made < Slots
     THEN { [op |-> "pcopy", a |-> a, out |-> NextSlot, pert |-> [form |-> FormOf(ps), items |-> ps]] : a \in Live("array"), ps \in Menu }
          \cup { [op |-> "fcopy", a |-> a, out |-> NextSlot, name |-> "free " \o a] : a \in Live("array") }
          \cup { [op |-> "fcopy", a |-> a, out |-> NextSlot] : a \in Live("array") }
     ELSE {})
    \cup (IF Reads /\ "m" \notin DOMAIN heap THEN { [op |-> "getloc", a |-> a, q |-> q, out |-> "m"] : a \in Live("array"), q \in {"loc", "actual"} } ELSE {})
    \cup (IF Reads /\ "m" \in DOMAIN heap /\ heap["m"].t # "junk" THEN { [op |-> "poke", x |-> "m"] } ELSE {})
NameOrder == << "a", "b", "c", "d", "e", "f" >>
Closing(H) == LET s == SelectSeq(NameOrder, LAMBDA x : x \in DOMAIN H) IN [i \in 1..Len(s) |-> [op |-> "aview", a |-> s[i]]]
Init == StartWith(Setup)
Next == \E c \in Commands : Do(c, Closing(After(heap, c)))
Spec == Init /\ [][Next]_<<heap, hist>>
View == heap

\* ---- what must hold -------------------------------------------------------
Types(a) == { a.pert[i].ty : i \in 1..Len(a.pert) }
OfType(a, ty) == LET S == { i \in 1..Len(a.pert) : a.pert[i].ty = ty } IN a.pert[CHOOSE i \in S : TRUE]
OnePerType == \A x \in Live("array") : \A i, j \in 1..Len(heap[x].pert) : heap[x].pert[i].ty = heap[x].pert[j].ty => i = j
NominalShared == \A x \in Live("array") : \E y \in {"a", "b"} : heap[x].loc = heap[y].loc /\ heap[x].att = heap[y].att
ActualIsNominalWithoutErrors == \A x \in Live("array") : {"loc", "scale"} \cap Types(heap[x]) = {} => ActualLoc(heap[x]) = heap[x].loc
\* no step changes what existing variables denote (m is the caller's own matrix)
Immutable == [][\A x \in DOMAIN heap \ {"m"} : heap'[x] = heap[x]]_<<heap, hist>>
\* a copy has the new perturbations, and the old ones of all other types
CopyIsReplacement ==
    [][LET c == hist'[Len(hist')] IN
       (c.op = "pcopy" /\ c.out \in DOMAIN heap') =>
          LET old == heap[c.a]  new == heap'[c.out]  ps == PertSeq(heap, c.pert.items)
              tys == { ps[i].ty : i \in 1..Len(ps) }
          IN /\ Types(new) = Types(old) \cup tys
             /\ \A i \in 1..Len(ps) : OfType(new, ps[i].ty) = ps[i]
             /\ \A ty \in Types(old) \ tys : OfType(new, ty) = OfType(old, ty)
             /\ new.name = old.name]_<<heap, hist>>
FreeIsFree ==
    [][LET c == hist'[Len(hist')] IN (c.op = "fcopy") =>
          heap'[c.out].pert = <<>> /\ heap'[c.out].name = Opt(c, "name", heap[c.a].name)]_<<heap, hist>>
\* rejected exactly when a perturbation is malformed or does not fit
RejectionRule ==
    [][LET c == hist'[Len(hist')] IN (c.op = "pcopy") =>
          ((c.out \notin DOMAIN heap') <=> \E i \in 1..Len(c.pert.items) : ~Has(c.pert.items[i], "ref") /\ c.pert.items[i].par.sh # <<2>>)]_<<heap, hist>>
=============================================================================
