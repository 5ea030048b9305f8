---------------------------- MODULE TraceRepeat ----------------------------
(* Recorded histories in which computations occur again: after others, on  *)
(* other registers, in a second process.  Answers (rules in their order,   *)
(* verdicts, messages) must be the same as the first time.                 *)
EXTENDS Repeat, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, prov, seen, ok
vars == <<h, l, prov, seen, ok>>
Steps == Traces[h].steps
S == Steps[l].in
O == Steps[l].out
None == [args |-> <<>>, from |-> <<>>]
Init == /\ h \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ seen = <<>>
        /\ prov = [r \in 1..4 |-> None]
\* what is compared: not the ids of e-classes
Seen(o) == [k \in (DOMAIN o) \ {"g", "size0", "size1"} |-> o[k]]
\* a new process starts with empty registers
Restart == /\ O.r = "restart" /\ prov' = [r \in 1..4 |-> None] /\ ok' = TRUE /\ seen' = seen
Answer == /\ O.r \in {"ok", "panic"}
          /\ LET p == Prov(prov, S)  o == Seen(O) IN
             /\ ok' = Same(seen, p, o)
             /\ seen' = Append(seen, <<p, o>>)
          /\ prov' = NewProv(prov, S)
\* not executed, or no answer in time
NoAnswer == /\ O.r \in {"skip", "hang"}
            /\ ok' = TRUE /\ seen' = seen /\ prov' = NewProv(prov, S)
Crash == /\ O.r = "crash" /\ ok' = FALSE /\ UNCHANGED <<prov, seen>>
Next == /\ ok /\ l <= Len(Steps)
        /\ Restart \/ Answer \/ NoAnswer \/ Crash
        /\ l' = l + 1 /\ h' = h
Conforms == ok
=============================================================================
