------------------------------- MODULE Nights -------------------------------
(* The nightly run: clean up, run the tests, assemble the report, upload.  *)
(* A night is [test, pub, rows, log, extra]: what happens to the tests     *)
(* (ok; late, early: they fail after or before writing data; nodata: they  *)
(* pass and write none; killed: the machine dies during them) and to the   *)
(* upload (ok, fail, killed), and what the tests write.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Complete(s) == s.test = "ok" /\ s.rows # <<>>
Extra(s) == IF s.extra = "" THEN <<>> ELSE <<"data/" \o s.extra \o ".txt=" \o s.extra>>
\* the report of a night: its own log, data (also as a script) and files, and the pages
Report(s) == [log |-> s.log, json |-> s.rows, js |-> s.rows, pages |-> TRUE, more |-> Extra(s)]
Uploaded(s) == IF Complete(s) THEN <<Report(s)>> ELSE <<>>
Success(s) == Complete(s) /\ s.pub = "ok"
=============================================================================
