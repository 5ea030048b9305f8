---------------------------- MODULE MCFastForward ----------------------------
(* Fast-forwarding as a state machine on small workloads: compress with    *)
(* the allowed prior rules, grow with the exploratory rules, extract, then *)
(* compress with all rules, extract, minimise.  The contract FFRes must    *)
(* accept every run.                                                       *)
EXTENDS Synth, Json, IOUtils, FiniteSetsExt
LEVEL == atoi(IOEnv.LEVEL)
Lang == "toyx"
X == <<"x">>  N0 == <<"0">>  N1 == <<"1">>
A == <<"?a">>  B == <<"?b">>
P2(t, u) == <<"+", t, u>>
G2(t, u) == <<"g", t, u>>
Ng(t) == <<"~", t>>
S1(t) == <<"s", t>>
M3(t, u, v) == <<"m", t, u, v>>
\* the exploratory rules of the domain
Expl == << <<P2(A, N1), S1(A)>>, <<S1(A), P2(A, N1)>>, <<Ng(A), G2(N0, A)>>, <<G2(N0, A), Ng(A)>>, <<P2(A, B), P2(B, A)>>,
           <<G2(A, A), N0>>, <<P2(A, G2(N0, B)), G2(A, B)>>, <<G2(A, B), P2(A, G2(N0, B))>>, <<S1(S1(S1(A))), A>>,
           <<M3(A, N1, B), P2(A, B)>>, <<P2(A, B), M3(A, N1, B)>> >>
Pool == << P2(X, Ng(X)), N0, P2(Ng(X), X), M3(X, N1, X), P2(X, X), P2(P2(P2(X, N1), N1), N1), X, G2(X, X), Ng(Ng(X)), P2(X, N1), P2(N1, X) >>
NP == IF LEVEL = 1 THEN 7 ELSE Len(Pool)
Priors == {<<>>, << <<Ng(Ng(A)), A>> >>, << <<P2(A, B), P2(B, A)>>, <<G2(A, N0), A>> >>}
VARIABLES run, todo, got, pc
vars == <<run, todo, got, pc>>
Init == /\ \E Q \in UNION {kSubset(n, 1..NP) : n \in 1..(IF LEVEL = 1 THEN 2 ELSE 3)} : \E p \in Priors :
             run = [ts |-> [i \in 1..Cardinality(Q) |-> Pool[SetToSortSeq(Q, <)[i]]], prior |-> p]
        /\ todo = {} /\ got = <<>> /\ pc = "grow"
G1 == Compress(NoData, AddTerms(Empty, run.ts), SelectSeq(run.prior, LAMBDA r : IsAllowedRule(Lang, r)), 1).g
G2g == Simple(NoData, G1, Expl, 1).g
G3 == Compress(NoData, G2g, run.prior \o Expl, 1).g
Rules(h, k) ==
  LET mt == MinTerms(h, Lang)
      e(c) == CHOOSE t \in mt[c] : TRUE
      P == {p \in MergedPairs(h, k) : p[1] \in DOMAIN mt /\ p[2] \in DOMAIN mt}
      R == {CanonTerms(Lang, e(p[1]), e(p[2])) : p \in P} \cup {CanonTerms(Lang, e(p[2]), e(p[1])) : p \in P}
  IN {r \in R : VarsOf(r[2]) \subseteq VarsOf(r[1]) /\ r[1] # r[2]}
Extract == /\ pc = "grow" /\ todo' = Rules(G1, G2g) \cup Rules(G2g, G3) /\ pc' = "pick" /\ UNCHANGED <<run, got>>
Chosen == run.prior \o got
Known(s) == {Chosen[i] : i \in 1..Len(Chosen)} \cup {s[i] : i \in 1..Len(s)}
AddNew(s, r) == IF r \in Known(s) THEN s ELSE Append(s, r)
Valid(r) == ValidRule(Lang, r[1], r[2])
Pick == /\ pc = "pick" /\ todo # {}
        /\ LET r == CHOOSE r \in todo : \A q \in todo : CmpScore(r, q) >= 0
               rv == Rev(r) IN
           /\ todo' = todo \ {r}
           /\ got' = (IF ~Valid(r) THEN got ELSE IF rv \in todo THEN AddNew(AddNew(got, r), rv) ELSE AddNew(got, r))
           /\ pc' = (IF Valid(r) THEN "shrink" ELSE "pick")
        /\ UNCHANGED run
Drop == pc = "shrink" /\ todo' = Shrink("compress", todo, Chosen, 2) /\ pc' = "pick" /\ UNCHANGED <<run, got>>
Next == Extract \/ Pick \/ Drop
Finished == pc = "pick" /\ todo = {}
Contract == Finished => FFRes(Lang, run.ts, run.prior, Expl, got, 1, 4) # "bad"
\* valid rules only: every candidate is one, as all rules are
AllValid == pc = "pick" => \A r \in todo : Valid(r)
Emit == Finished => PrintT(ToJson(<< [op |-> "ff", ts |-> run.ts, prior |-> run.prior, pit |-> 1, mit |-> 2, k |-> 4] >>))
=============================================================================
