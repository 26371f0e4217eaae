-------------------------------- MODULE Host --------------------------------
(* Reporting and total evaluation; evaluated by /verif/java/doanum/Host.   *)
EXTENDS TLC

Report(s)  == Assert(FALSE, "TLC override missing for Report")   \* prints one line; TRUE
Try(e)     == Assert(FALSE, "TLC override missing for Try")      \* [ok |-> TRUE, val |-> e], or
                                                                \* [ok |-> FALSE, err |-> message] when TLC finds no value for e
Int2Str(n) == Assert(FALSE, "TLC override missing for Int2Str")
=============================================================================
