------------------------------ MODULE MCNights ------------------------------
(* The script as a machine of small steps on the disk, which keeps what    *)
(* earlier nights left behind.  A step can fail (the script stops) and the *)
(* machine can be killed before any step; the next night starts afresh.    *)
EXTENDS Nights, Json, IOUtils
NIGHTS == atoi(IOEnv.NIGHTS)
VARIABLES disk, out, lgf, pc, nit, done, upl
vars == <<disk, out, lgf, pc, nit, done, upl>>
None == [t |-> "none"]
\* disk: the data folder; out: the folder to upload; lgf: the lgf file
Clean0 == [rows |-> <<>>, js |-> None, more |-> {}]
Tests == {"ok", "late", "early", "nodata", "killed"}
Kinds == {<<t, "ok">> : t \in Tests} \cup {<<"ok", "fail">>, <<"ok", "killed">>}
Odd(n) == n - 2 * (n \div 2)
Night(n, k) == [op |-> "night", test |-> k[1], pub |-> k[2], rows |-> [i \in 1..(1 + Odd(n)) |-> 10 * n + i],
                log |-> <<"n" \o ToString(n)>>, extra |-> IF Odd(n) = 1 THEN "x" \o ToString(n) ELSE ""]
Init == /\ disk = Clean0 /\ out = <<>> /\ lgf = <<>> /\ pc = "clean" /\ done = <<>> /\ upl = <<>>
        /\ nit \in {Night(1, k) : k \in Kinds}
\* the night ends, with what was uploaded in it
End(u) == /\ done' = Append(done, [night |-> nit, ups |-> u]) /\ upl' = <<>> /\ pc' = "clean"
          /\ IF Len(done) + 1 < NIGHTS THEN nit' \in {Night(Len(done) + 2, k) : k \in Kinds} ELSE nit' = None
Keep == UNCHANGED <<nit, done>>
Crash == /\ pc # "upload" /\ Len(done) < NIGHTS /\ End(upl) /\ UNCHANGED <<disk, out, lgf>>
Clean == pc = "clean" /\ disk' = Clean0 /\ out' = <<>> /\ pc' = "test" /\ Keep /\ UNCHANGED <<lgf, upl>>
Test == /\ pc = "test"
        /\ lgf' = IF nit.test = "early" THEN <<>> ELSE nit.log
        /\ disk' = IF nit.test \in {"early", "nodata"} THEN disk
                   ELSE [disk EXCEPT !.rows = @ \o (IF nit.test = "killed" THEN SubSeq(nit.rows, 1, 1) ELSE nit.rows), !.more = @ \cup ToSet(Extra(nit))]
        /\ IF nit.test \in {"ok", "nodata"} THEN pc' = "log" /\ Keep /\ UNCHANGED upl ELSE End(upl)
        /\ UNCHANGED out
Step(p, q) == pc = p /\ pc' = q /\ Keep /\ UNCHANGED upl
PutLog == Step("log", "pages") /\ out' = [log |-> lgf] /\ UNCHANGED <<disk, lgf>>
Pages == Step("pages", "wrap") /\ out' = out @@ [pages |-> TRUE] /\ UNCHANGED <<disk, lgf>>
\* without data there is nothing to wrap, and the script stops
Wrap == /\ pc = "wrap" /\ UNCHANGED <<out, lgf>>
        /\ IF disk.rows = <<>> THEN End(upl) /\ UNCHANGED disk
           ELSE disk' = [disk EXCEPT !.js = [t |-> "rows", rows |-> disk.rows]] /\ pc' = "data" /\ Keep /\ UNCHANGED upl
Data == Step("data", "upload") /\ out' = out @@ [json |-> disk.rows, js |-> disk.js.rows, more |-> SetToSeq(disk.more)] /\ UNCHANGED <<disk, lgf>>
Upload == pc = "upload" /\ End(Append(upl, out)) /\ UNCHANGED <<disk, out, lgf>>
Next == Len(done) < NIGHTS /\ (Crash \/ Clean \/ Test \/ PutLog \/ Pages \/ Wrap \/ Data \/ Upload)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* what is uploaded is that night's report, whatever happened before
OwnReport == \A i \in 1..Len(done) : done[i].ups \in {<<>>, Uploaded(done[i].night)}
\* nothing of an incomplete night is ever uploaded
NoPartial == \A i \in 1..Len(done) : ~Complete(done[i].night) => done[i].ups = <<>>
NeverTwice == Len(upl) <= 1 /\ \A i, j \in 1..Len(done) : i < j => \A u \in ToSet(done[i].ups) : u \notin ToSet(done[j].ups)
\* every sequence of nights comes to its end
Ends == <>(Len(done) = NIGHTS)
Emit == Len(done) = NIGHTS => PrintT(ToJson([i \in 1..NIGHTS |-> done[i].night]))
=============================================================================
