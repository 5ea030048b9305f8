---------------------------- MODULE TraceNights -----------------------------
(* Recorded nights of the real script checked against Nights.              *)
EXTENDS Nights, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
vars == <<h, l, ok>>
Init == h \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
H == Traces[h]
S == H.steps[l].in
O == H.steps[l].out
NightOk == /\ O.good = Success(S)
           /\ Len(O.pubs) = Len(Uploaded(S))
           /\ \A i \in 1..Len(O.pubs) :
                /\ O.pubs[i].name
                /\ \A f \in {"log", "json", "js", "pages", "more"} : O.pubs[i][f] = Uploaded(S)[i][f]
Do == O.r = "ok" /\ ok' = NightOk
Bad == O.r \in {"panic", "hang", "crash"} /\ ok' = FALSE
Next == ok /\ l <= Len(H.steps) /\ (Do \/ Bad) /\ l' = l + 1 /\ h' = h
Conforms == ok
=============================================================================
