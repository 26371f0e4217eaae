------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: every recorded history of the real library must be a  *)
(* behaviour of the specification.  A history is a sequence of commands    *)
(* and of the observations recorded for them; the heap maps the caller's   *)
(* variables to abstract values.  Steps may change no variable other than  *)
(* the ones the command says it overwrites (frame condition).              *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

File == IOEnv.DOA_TRACE
Hists == ndJsonDeserialize(File)

VARIABLES h,     \* which history
          l,     \* commands consumed
          heap,  \* variables of the caller -> abstract values
          bad    \* "" or the name of the clause that failed
vars == <<h, l, heap, bad>>

Init == /\ h \in 1..Len(Hists)
        /\ l = 0
        /\ heap = [x \in {} |-> None]
        /\ bad = ""

Verdict(c, e) ==
    LET j == Try(Judge(heap, c, e.r))
    IN IF ~j.ok THEN [v |-> "outside-specification: " \o j.err, o |-> None]
       ELSE IF j.val.v # "" THEN [v |-> c.op \o "/" \o j.val.v, o |-> None]
       ELSE IF \E i \in 1..Len(e.mut) : e.mut[i] \notin MayChange(c)
            THEN [v |-> c.op \o "/frame: changed " \o e.mut[CHOOSE i \in 1..Len(e.mut) : e.mut[i] \notin MayChange(c)], o |-> None]
       ELSE IF Has(j.val, "upd") THEN [v |-> "", o |-> j.val.o, upd |-> j.val.upd]
       ELSE [v |-> "", o |-> j.val.o]

Step == /\ bad = ""
        /\ l < Len(Hists[h].cmds)
        /\ LET c == Hists[h].cmds[l+1]
               j == Verdict(c, Hists[h].evs[l+1])
               \* variables the command overwrites or whose state it changes, then the variable it binds
               old == IF Has(j, "upd") THEN j.upd @@ Forget(heap, c) ELSE Forget(heap, c)
           IN /\ bad' = j.v
              /\ heap' = IF j.v = "" /\ Has(c, "out") THEN Bind(old, c.out, j.o) ELSE old
              /\ (j.v # "") => Report("@@FAIL " \o Int2Str(h) \o " " \o Int2Str(l+1) \o " " \o j.v)
        /\ l' = l + 1
        /\ UNCHANGED h
        /\ (l' = Len(Hists[h].cmds) /\ bad' = "") => Report("@@DONE " \o Int2Str(h) \o " " \o Int2Str(l'))

Spec == Init /\ [][Step]_vars
View == <<h, l, bad>>
=============================================================================
