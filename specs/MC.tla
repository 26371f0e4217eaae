--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Behaviours of the specification itself.  A design model EXTENDS this    *)
(* module, says which commands are enabled in a heap, and states what must *)
(* hold of all behaviours.  The abstract effect of a command is the one    *)
(* trace validation uses (module System), applied to an observation that   *)
(* conveys nothing.  Every transition TLC takes is exported as a history   *)
(* (the shortest path to its state, then the command, then an observation  *)
(* of everything), to be run on the library.                               *)
(***************************************************************************)
EXTENDS System, Json

VARIABLES heap,   \* variables of the caller -> abstract values
          hist    \* commands so far (not part of the view)

Blank == [t |-> "blank"]
\* (what only the observation can tell is unknown)
Opaque == {"bound"}     \* (no need to work out what it returns)
Effect(H, c) == IF c.op \in Opaque THEN [v |-> "", o |-> [t |-> "junk"]] ELSE LET e == Try(Judge(H, c, Blank)) IN IF e.ok THEN e.val ELSE [v |-> "", o |-> [t |-> "junk"]]
Rejects(H, c) == Effect(H, c).v = "not-rejected"
After(H, c) ==
    LET j == Effect(H, c)
        old == IF Has(j, "upd") THEN j.upd @@ Forget(H, c) ELSE Forget(H, c)
    IN IF j.v = "not-rejected" THEN H ELSE IF Has(c, "out") THEN Bind(old, c.out, j.o) ELSE old

Emit(h) == Report("@@HIST " \o ToJson(h))
NoHeap == [x \in {} |-> None]
Run(cmds) == FoldLeft(LAMBDA H, c : After(H, c), NoHeap, cmds)
\* start from the heap the commands produce
StartWith(cmds) == hist = cmds /\ heap = Run(cmds)
\* models without steps: every case is a script, exported as it is
CaseInit(script) == StartWith(script) /\ Emit(script)
CaseNext == FALSE /\ UNCHANGED <<heap, hist>>
\* one step, exported together with the closing observations
Do(c, closing) ==
    /\ heap' = After(heap, c)
    /\ hist' = Append(hist, c)
    /\ Emit(hist' \o closing)
\* one step of a path of n commands after the setup; only complete paths are exported (for what keeps state the
\* specification does not have, such as caches, paths and not states have to be covered)
Walk(c, setup, n, closing) ==
    /\ heap' = After(heap, c)
    /\ hist' = Append(hist, c)
    /\ (Len(hist') = setup + n) => Emit(hist' \o closing)
NumTok(v) == [t |-> "num", v |-> v]
VecTok(n, row) == [t |-> "arr", sh |-> <<n>>, dt |-> "f", v |-> <<row>>]
MatTok(n, m, rows) == [t |-> "arr", sh |-> <<n, m>>, dt |-> "f", v |-> rows]
CMatTok(n, m, rows) == [t |-> "arr", sh |-> <<n, m>>, dt |-> "c", v |-> rows]
RowOf(s) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o " " \o x, "", s)
IntTok(n, x) == [t |-> "arr", sh |-> <<n>>, dt |-> "i", v |-> << RowOf([i \in 1..n |-> Int2Str(x[i])]) >>]
IntCol(x) == [t |-> "arr", sh |-> <<Len(x), 1>>, dt |-> "i", v |-> [i \in 1..Len(x) |-> Int2Str(x[i])]]
\* a named law (a law that has no value fails too, and says why)
Law(name, holds) == LET t == Try(holds) IN IF t.ok THEN t.val \/ ~PrintT("LAW " \o name) ELSE ~PrintT("LAW " \o name \o ": " \o t.err)
Ref(n) == [t |-> "ref", n |-> n]
Lst == hist'[Len(hist')]       \* the command of this step
Live(t) == { x \in DOMAIN heap : heap[x].t = t }
=============================================================================
