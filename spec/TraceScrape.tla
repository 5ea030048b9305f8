---------------------------- MODULE TraceScrape -----------------------------
(* Recorded runs of the real script checked against Scrape.                *)
EXTENDS Scrape, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
vars == <<h, l, ok>>
Init == h \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
H == Traces[h]
S == H.steps[l].in
O == H.steps[l].out
Do == /\ O.r = "ok"
      /\ ok' = /\ SameBag(Listed(S.files, 2), O.plain)
               /\ SameBag(Listed(S.files, 3), O.cond)
               /\ Counts(S.files) = {O.counts[i] : i \in 1..Len(O.counts)} /\ Len(O.counts) = Cardinality(Counts(S.files))
Bad == O.r \in {"panic", "hang", "crash"} /\ ok' = FALSE
Next == ok /\ l <= Len(H.steps) /\ (Do \/ Bad) /\ l' = l + 1 /\ h' = h
Conforms == ok
=============================================================================
