------------------------------ MODULE MCRepeat ------------------------------
(* A library that remembers earlier answers and looks them up before it    *)
(* computes.  If the table is kept by the whole provenance, every history  *)
(* conforms (Functional); a table kept by the call alone is noticed in     *)
(* every history that asks the same of different e-graphs (Noticed).  The  *)
(* histories are replayed, each followed by itself.                        *)
EXTENDS Repeat, TLC, Json, IOUtils
LEVEL == atoi(IOEnv.LEVEL)
X == <<"x">>  Y == <<"y">>
Add(a, b) == <<"+", a, b>>
Comm == <<<<"+", <<"?a">>, <<"?b">>>>, <<"+", <<"?b">>, <<"?a">>>>>>
Neg2 == <<<<"~", <<"~", <<"?a">>>>>>, <<"?a">>>>
W1 == <<X, Y, Add(X, Y), Add(Y, X), <<"~", <<"~", X>>>>>>
W2 == <<X, <<"0">>, Add(X, <<"0">>), <<"*", X, <<"0">>>>, <<"/", <<"0">>, X>>>>
Run(rs) == [op |-> "run", g |-> 1, d |-> 2, s |-> "compress", it |-> 2, rules |-> rs]
Calls == { [op |-> "mat", d |-> 1, ts |-> W1], [op |-> "mat", d |-> 1, ts |-> W2], Run(<<Comm>>), Run(<<Neg2>>),
           [op |-> "cm", g |-> 1], [op |-> "fm", g |-> 1], [op |-> "cm", g |-> 2], [op |-> "xc", a |-> 1, b |-> 2],
           [op |-> "min", cands |-> <<Comm, Neg2>>, prior |-> <<>>, s |-> "compress", it |-> 2],
           [op |-> "min", cands |-> <<Neg2, Comm>>, prior |-> <<>>, s |-> "compress", it |-> 2],
           [op |-> "synth", ts |-> W1, prior |-> <<>>, pit |-> 2, mit |-> 2, fast |-> FALSE, k |-> 4] }
MAX == IF LEVEL = 1 THEN 3 ELSE 4
VARIABLES hist, prov, table, seen, by
vars == <<hist, prov, table, seen, by>>
None == [args |-> <<>>, from |-> <<>>]
Init == /\ hist = <<>> /\ prov = [r \in 1..2 |-> None] /\ table = {} /\ seen = <<>> /\ by \in {"provenance", "call"}
Key(c, p) == IF by = "provenance" THEN p ELSE c
\* the true answer stands for itself: it is determined by the provenance
Call == /\ Len(hist) < MAX
        /\ \E c \in Calls :
             LET p == Prov(prov, c)
                 hit == {e \in table : e[1] = Key(c, p)}
                 ans == IF Fills(c) \/ hit = {} THEN p ELSE (CHOOSE e \in hit : TRUE)[2]
             IN /\ hist' = Append(hist, c) /\ prov' = NewProv(prov, c) /\ by' = by
                /\ table' = IF Fills(c) THEN table ELSE table \cup {<<Key(c, p), ans>>}
                /\ seen' = Append(seen, <<p, ans>>)
Next == Call
Wrong == \E i \in 1..Len(seen) : seen[i][1] # seen[i][2]
Functional == by = "provenance" => /\ ~Wrong
                                   /\ \A i \in 1..Len(seen) : Same(seen, seen[i][1], seen[i][2])
\* the wrong table is wrong exactly when one call was made of two provenances
RECURSIVE ProvAt(_)
ProvAt(k) == IF k = 0 THEN [r \in 1..2 |-> None] ELSE NewProv(ProvAt(k - 1), hist[k])
Noticed == by = "call" =>
  (Wrong <=> \E i \in 1..Len(hist), j \in 1..Len(hist) :
                /\ i < j /\ hist[i] = hist[j] /\ ~Fills(hist[i])
                /\ Prov(ProvAt(i - 1), hist[i]) # Prov(ProvAt(j - 1), hist[j]))
Emit == (by = "provenance" /\ Len(hist) = MAX) => PrintT(ToJson(hist \o hist))
=============================================================================
