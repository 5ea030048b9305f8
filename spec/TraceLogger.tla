---------------------------- MODULE TraceLogger ----------------------------
(* Recorded histories of logging calls checked against Logger.             *)
EXTENDS Logger, Json, IOUtils, Cands
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, f, ok
vars == <<h, l, f, ok>>
Init == h \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ f = NoFile
H == Traces[h]
S == H.steps[l].in
O == H.steps[l].out
Seen == [k |-> O.file.k, rows |-> O.file.rows, raw |-> O.file.raw]
View(x) == [k |-> x.k, rows |-> x.rows, raw |-> x.raw]
NewText == IF O.file.rows = <<>> THEN "" ELSE O.file.rows[Len(O.file.rows)]
Sound == IF H.lang = "bv" THEN SelectSeq(S.a, LAMBDA r : ValidRule("bv2", r[1], r[2])) ELSE S.a
\* answers: what the rules imply by the specification, or as recorded rule by rule
Ans(dir, ty) ==
  LET ds == IF dir = "baseline_derives_enumo" THEN S.b ELSE Sound
      ag == IF dir = "baseline_derives_enumo" THEN S.a ELSE S.b
      one == IF dir = "baseline_derives_enumo" THEN (IF ty = "lhs" THEN O.one.ba_lhs ELSE O.one.ba_both)
             ELSE (IF ty = "lhs" THEN O.one.ab_lhs ELSE O.one.ab_both)
  IN IF H.lang = "sym" THEN [i \in 1..Len(ag) |-> Derive(ds, ag[i], ty # "lhs", 5)] ELSE one
Do == /\ O.r = "ok"
      /\ LET e == Effect2(S, f, NewText) IN
         /\ f' = e
         /\ ok' = /\ Seen = View(e)
                  /\ S.op \in Calls /\ Writable(f) => O.done /\ RowOk(S, f, O.last, Sound, Ans)
Bad == O.r \in {"panic", "hang", "crash"} /\ ok' = FALSE /\ f' = f
Next == /\ ok /\ l <= Len(H.steps)
        /\ Do \/ Bad
        /\ l' = l + 1 /\ h' = h
Conforms == ok
=============================================================================
