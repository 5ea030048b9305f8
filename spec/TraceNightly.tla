---------------------------- MODULE TraceNightly ----------------------------
(* Recorded visits of the nightly pages checked against Nightly.           *)
EXTENDS Nightly, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, data, ok
vars == <<h, l, data, ok>>
Init == h \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ data = <<>>
H == Traces[h]
S == H.steps[l].in
O == H.steps[l].out
Do == /\ O.r = "ok"
      /\ ok' = ViewOk(S, O, data)
      /\ data' = IF S.op = "data" THEN S.rows ELSE data
Bad == O.r \in {"panic", "hang", "crash"} /\ ok' = FALSE /\ data' = data
Next == /\ ok /\ l <= Len(H.steps)
        /\ Do \/ Bad
        /\ l' = l + 1 /\ h' = h
Conforms == ok
=============================================================================
