------------------------------ MODULE MCLogger ------------------------------
(* Every short history of logging calls from every kind of starting file,  *)
(* in the implementation's small steps: make the folder, create the file,  *)
(* read it, write all rows back.  The file seen after a call is what the   *)
(* abstract append says, and rows never disappear.                         *)
EXTENDS Logger, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
R1 == << << <<"g", <<"?x">>>>, <<"?x">> >>, << <<"f", <<"?x">>, <<"?y">>>>, <<"f", <<"?y">>, <<"?x">>>> >> >>
R2 == << << <<"g", <<"g", <<"?x">>>>>>, <<"?x">> >> >>
CallSet == {
  [op |-> "baseline", spec |-> "rational_best", base |-> "herbie", a |-> R1, b |-> R2, time |-> 3],
  [op |-> "baseline", spec |-> "herbie", base |-> "rational_best", a |-> R1, b |-> R2, time |-> 0],
  [op |-> "baseline", spec |-> "bool", base |-> "oopsla", a |-> R2, b |-> <<>>, time |-> 8],
  [op |-> "ff", a |-> R1, b |-> <<>>, time |-> 1,
   ph |-> <<[s |-> "simple", n |-> "all"], [s |-> "sat", n |-> "lift"], [s |-> "compress", n |-> "x y"]>>] }
Starts == { [op |-> "pre", k |-> k, rows |-> <<>>, raw |-> ""] : k \in {"absent", "nofile", "blocked", "dir", "empty"} }
          \cup { [op |-> "pre", k |-> "rows", rows |-> r, raw |-> ""] :
                 r \in {<<>>, <<"{\"TYPE\":\"old\",\"n\":1}", "[1,2]">>} }
          \cup { [op |-> "pre", k |-> "bad", rows |-> <<>>, raw |-> x] : x \in {"{\"TYPE\":\"baseline\"}", "[1, 2", " "} }
          
VARIABLES f, pc, buf, hist, cur, before
vars == <<f, pc, buf, hist, cur, before>>
Init == \E s \in Starts : \E n \in {"none", "bool", "rational_best"} :
          /\ hist = <<s>> \o (IF n = "none" THEN <<>> ELSE << [op |-> "recipe", n |-> n, lines |-> <<"a", "", "b">>, nl |-> TRUE] >>)
          /\ f = (IF n = "none" THEN Start(s, NoFile) ELSE Effect2([op |-> "recipe", n |-> n, lines |-> <<"a", "", "b">>], Start(s, NoFile), ""))
          /\ pc = "idle" /\ buf = <<>> /\ cur = <<>> /\ before = f
Text(c) == ToString(c)
Begin == /\ pc = "idle" /\ Len(SelectSeq(hist, LAMBDA s : s.op \in Calls)) < Depth
         /\ \E c \in CallSet : hist' = Append(hist, c) /\ cur' = c
         /\ pc' = "mkdir" /\ before' = f /\ UNCHANGED <<f, buf>>
Mkdir == pc = "mkdir" /\ pc' = (IF f.blocked THEN "idle" ELSE "open") /\ UNCHANGED <<f, buf, hist, cur, before>>
Open == /\ pc = "open" /\ UNCHANGED <<buf, hist, cur, before>>
        /\ f' = (IF f.k = "absent" THEN [f EXCEPT !.k = "empty"] ELSE f)
        /\ pc' = (IF f.k = "unreadable" THEN "idle" ELSE "read")
ReadFile == /\ pc = "read" /\ UNCHANGED <<f, hist, cur, before>>
        /\ pc' = (IF f.k = "bad" THEN "idle" ELSE "write") /\ buf' = f.rows
Write == /\ pc = "write" /\ UNCHANGED <<hist, cur, before>>
         /\ f' = [f EXCEPT !.k = "rows", !.rows = Append(buf, Text(cur))] /\ buf' = <<>> /\ pc' = "idle"
Next == Begin \/ Mkdir \/ Open \/ ReadFile \/ Write
\* between calls the small steps amount to one append
AppendOnly == pc = "idle" => (cur = <<>> \/ f = Effect2(cur, before, Text(cur)))
\* whatever the moment, no row is lost
NoneLost == SubSeq(f.rows, 1, Len(before.rows)) = before.rows
Emit == (pc = "idle" /\ Len(SelectSeq(hist, LAMBDA s : s.op \in Calls)) = Depth) => PrintT(ToJson(hist))
=============================================================================
