------------------------------- MODULE MCScore -------------------------------
(* The ranking of rules over all pairs of small rules: a total preorder    *)
(* whose levels are decided by the five criteria in their order.  Every    *)
(* pair is replayed.                                                       *)
EXTENDS Cands, Json, IOUtils
LEVEL == atoi(IOEnv.LEVEL)
A == <<"?a">>  B == <<"?b">>  N0 == <<"0">>  N1 == <<"1">>
F(t, u) == <<"+", t, u>>
G(t) == <<"~", t>>
Sides == <<A, B, N0, N1, G(A), G(N0), G(G(A)), F(A, A), F(A, B), F(A, N0), F(N0, N1), F(N0, N0), G(F(A, B)), <<"*", A, B>>, F(G(A), A)>>
NS == IF LEVEL = 1 THEN 10 ELSE Len(Sides)
VARIABLES r, s, lvl
vars == <<r, s, lvl>>
Rules == {q \in {<<Sides[i], Sides[j]>> : i \in 1..NS, j \in 1..NS} : VarsOf(q[2]) \subseteq VarsOf(q[1])}
Init == r \in Rules /\ s = r /\ lvl = 0
\* compare criterion by criterion
Next == \/ lvl = 0 /\ s' \in Rules /\ lvl' = 1 /\ r' = r
        \/ lvl \in 1..5 /\ (Score(r)[lvl] = Score(s)[lvl]) = TRUE /\ lvl' = lvl + 1 /\ UNCHANGED <<r, s>>
Stops == lvl = 6 \/ (lvl > 0 /\ Score(r)[lvl] # Score(s)[lvl])
Walked == Stops => CmpScore(r, s) = IF lvl = 6 THEN 0 ELSE IF Score(r)[lvl] > Score(s)[lvl] THEN 1 ELSE -1
Antisymmetric == Stops => CmpScore(r, s) = -CmpScore(s, r)
Middle == <<A, F(A, N0)>>
Transitive == (Stops /\ CmpScore(r, s) >= 0 /\ CmpScore(s, Middle) >= 0) => CmpScore(r, Middle) >= 0
\* a rule and its reverse rank alike
Mirror == lvl = 0 => CmpScore(r, <<r[2], r[1]>>) = 0
\* renaming variables or constants injectively does not matter
Renamed == lvl = 0 => LET f == [x \in {"?a", "?b", "0", "1"} |-> CASE x = "?a" -> B [] x = "?b" -> A [] x = "0" -> N1 [] OTHER -> N0]
           IN CmpScore(r, <<SubstT(r[1], f), SubstT(r[2], f)>>) = 0
\* replacing a constant by a fresh variable is never worse
General == lvl = 0 => \A c \in {"0", "1"} : c \in LeavesOf(r[1]) \cup LeavesOf(r[2]) =>
             LET f == [x \in {c} |-> <<"?c">>] IN CmpScore(<<SubstT(r[1], f), SubstT(r[2], f)>>, r) = 1
Emit == lvl = 0 => PrintT(ToJson([i \in 1..Cardinality(Rules) |-> [op |-> "score", a |-> r, b |-> SetToSeq(Rules)[i]]]))
=============================================================================
