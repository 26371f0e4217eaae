------------------------------- MODULE System -------------------------------
(* The library as a whole: dispatch of commands to their specification.    *)
EXTENDS Plots

\* a value put into a variable by the caller
ValueOps == {"val", "poke", "spoke", "rpoke", "wishart", "mkcov", "refill"}
ValueJudge(H, c, r) ==
    CASE c.op = "val" -> [v |-> "", o |-> c.v]
      [] c.op \in {"poke", "spoke", "rpoke"} -> [v |-> "", o |-> None]
      [] c.op \in {"wishart", "mkcov", "refill"} -> [v |-> Chk("harness", IsMatV(r), ""), o |-> r]

Judge(H, c, r) ==
    IF c.op \in AllArrayOps THEN ArrayJudge(H, c, r)
    ELSE IF c.op \in CoarrayOps THEN CoarrayJudge(H, c, r)
    ELSE IF c.op \in SourceOps THEN SourceJudge(H, c, r)
    ELSE IF c.op \in SteerOps THEN SteerJudge(H, c, r)
    ELSE IF c.op \in GridOps THEN GridJudge(H, c, r)
    ELSE IF c.op \in EstOps THEN EstJudge(H, c, r)
    ELSE IF c.op \in DataOps THEN DataJudge(H, c, r)
    ELSE IF c.op \in BoundOps THEN JudgeBound(H, c, r)
    ELSE IF c.op \in MlOps THEN MlJudge(H, c, r)
    ELSE IF c.op \in UtilOps THEN UtilJudge(H, c, r)
    ELSE IF c.op \in PlotOps THEN PlotJudge(H, c, r)
    ELSE IF c.op \in SparseOps THEN SparseJudge(H, c, r)
    ELSE ValueJudge(H, c, r)

\* variables a command is allowed to overwrite
MayChange(c) == IF c.op \in {"poke", "rpoke"} THEN {c.x} ELSE IF c.op \in {"spoke", "smove"} THEN {c.s} ELSE {}
\* after a poke the variable holds an unknown value
Forget(H, c) == [x \in DOMAIN H |-> IF x \in MayChange(c) THEN [t |-> "junk"] ELSE H[x]]
=============================================================================
