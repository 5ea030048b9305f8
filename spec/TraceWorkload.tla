--------------------------- MODULE TraceWorkload ---------------------------
(* Recorded histories of the real workload builder, checked step by step   *)
(* against Workload.                                                       *)
EXTENDS Workload, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, regs, ok
vars == <<h, l, regs, ok>>

Init == /\ h \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
        /\ regs = [r \in 1..6 |-> <<>>]

Steps == Traces[h].steps
S == Steps[l].in
O == Steps[l].out

Build == /\ S.op \in {"new", "base", "plug", "append", "filter", "iter", "subst", "file"}
         /\ O.r = "ok"
         /\ ok' = Allowed(S, regs, O.ts)
         /\ regs' = [regs EXCEPT ![S.d] = O.ts]
PrintStep == /\ S.op = "print" /\ O.r = "ok"
         /\ ok' = (ParseAll(O.cs) = <<S.t>>)
         /\ UNCHANGED regs
\* a printed listing has one line per term
ShowStep == /\ S.op = "show" /\ O.r = "ok"
         /\ ok' = (Len(O.lines) = Len(regs[S.w]) /\ \A i \in 1..Len(O.lines) : ParseAll(O.lines[i]) = <<regs[S.w][i]>>)
         /\ UNCHANGED regs
ParseIt == /\ S.op = "parse" /\ O.r = "ok"
         /\ ok' = (O.t = ParseTerm(S.cs))
         /\ UNCHANGED regs
Skip  == O.r = "skip" /\ ok' = TRUE /\ UNCHANGED regs
\* a panic, hang or crash is a result no action allows
Bad   == O.r \in {"panic", "hang", "crash"} /\ ok' = FALSE /\ UNCHANGED regs

Next == /\ ok /\ l <= Len(Steps)
        /\ Build \/ PrintStep \/ ShowStep \/ ParseIt \/ Skip \/ Bad
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
