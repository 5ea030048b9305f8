------------------------------- MODULE MCSynth -------------------------------
(* The inference pipeline as a state machine on small workloads: compress  *)
(* with the prior rules, match vectors, turn pairs into rules, minimise.   *)
(* Every run must satisfy the contract SynthRes that judges recorded runs, *)
(* so the contract asks nothing that the design does not give.             *)
EXTENDS Synth, Json, IOUtils, FiniteSetsExt
LEVEL == atoi(IOEnv.LEVEL)
Lang == "toyf"
X == <<"x">>  Y == <<"y">>  N0 == <<"0">>  N1 == <<"1">>
P2(t, u) == <<"+", t, u>>
M2(t, u) == <<"*", t, u>>
D2(t, u) == <<"/", t, u>>
Ng(t) == <<"~", t>>
A == <<"?a">>  B == <<"?b">>
Pool == << X, P2(X, Y), P2(Y, X), P2(X, N0), Ng(Ng(X)), M2(X, X), D2(X, X), N1, D2(M2(X, X), X), Ng(X), P2(X, P2(X, X)) >>
NP == IF LEVEL = 1 THEN 7 ELSE Len(Pool)
Priors == {<<>>, << <<P2(A, B), P2(B, A)>> >>, << <<Ng(Ng(A)), A>>, <<P2(A, N0), A>> >>}
VARIABLES run, todo, got, pc
vars == <<run, todo, got, pc>>
Base == [x |-> [i \in 1..9 |-> (i - 1) \div 3], y |-> [i \in 1..9 |-> (i - 1) % 3]]
D == [lang |-> Lang, len |-> 9, base |-> Base]
ToRule(t, u) == CanonTerms(Lang, t, u)
Matched(g, fast) ==
  LET cv == CvOf(D, g)
      C == {c \in DOMAIN cv : \E i \in 1..9 : cv[c][i] # NONE}
  IN {p \in C \X C : p[1] < p[2] /\ (IF fast THEN IdVec(cv[p[1]], cv[p[2]]) ELSE MatchVec(cv[p[1]], cv[p[2]]))}
\* which of several smallest terms is extracted does not matter
Extract(S, alt) == LET t == CHOOSE t \in S : TRUE IN IF alt /\ S # {t} THEN CHOOSE u \in S \ {t} : TRUE ELSE t
Candidates(g, fast, alt) ==
  LET mt == MinTerms(g, "any")
      rule(p, q) == ToRule(Extract(mt[p], alt), Extract(mt[q], alt))
      R == {rule(p[1], p[2]) : p \in Matched(g, fast)} \cup {rule(p[2], p[1]) : p \in Matched(g, fast)}
  IN {r \in R : VarsOf(r[2]) \subseteq VarsOf(r[1]) /\ r[1] # r[2]}
Init == /\ \E Q \in UNION {kSubset(n, 1..NP) : n \in 2..(IF LEVEL = 1 THEN 3 ELSE 4)} :
           \E p \in Priors, f \in BOOLEAN, a \in (IF LEVEL = 1 THEN {FALSE} ELSE BOOLEAN) :
             run = [ts |-> [i \in 1..Cardinality(Q) |-> Pool[SetToSortSeq(Q, <)[i]]], prior |-> p, fast |-> f, alt |-> a]
        /\ todo = {} /\ got = <<>> /\ pc = "match"
Graph == Compress(D, AddTerms(Empty, run.ts), run.prior, 2).g
Match == /\ pc = "match" /\ todo' = Candidates(Graph, run.fast, run.alt) /\ pc' = "pick" /\ UNCHANGED <<run, got>>
Chosen == run.prior \o got
Known(s) == {Chosen[i] : i \in 1..Len(Chosen)} \cup {s[i] : i \in 1..Len(s)}
AddNew(s, r) == IF r \in Known(s) THEN s ELSE Append(s, r)
Valid(r) == ValidRule(Lang, r[1], r[2])
\* ties: one order is enough here, MCMinimize explores them all
Pick == /\ pc = "pick" /\ todo # {}
        /\ LET r == CHOOSE r \in todo : \A q \in todo : CmpScore(r, q) >= 0
               rv == Rev(r) IN
           /\ todo' = todo \ {r}
           /\ got' = (IF ~Valid(r) THEN got ELSE IF rv \in todo THEN AddNew(AddNew(got, r), rv) ELSE AddNew(got, r))
           /\ pc' = (IF Valid(r) THEN "shrink" ELSE "pick")
        /\ UNCHANGED run
Drop == pc = "shrink" /\ todo' = Shrink("compress", todo, Chosen, 2) /\ pc' = "pick" /\ UNCHANGED <<run, got>>
Next == Match \/ Pick \/ Drop
Finished == pc = "pick" /\ todo = {}
Contract == Finished => IF got = <<>> THEN NothingRes(Lang, run.ts, run.prior, 2, 4) # "bad"
                        ELSE SynthRes(Lang, run.ts, run.prior, got, 2, 4) # "bad"
\* the contract notices a lost rule, unless the others prove it
Notices == (Finished /\ Len(got) = 1) => NothingRes(Lang, run.ts, run.prior, 2, 4) # "ok" \/ SynthGoal(Lang, run.ts, run.prior, 2) = {}
Emit == (Finished /\ ~run.alt) => PrintT(ToJson(<< [op |-> "synth", ts |-> run.ts, prior |-> run.prior, pit |-> 2, mit |-> 2, fast |-> run.fast, k |-> 4] >>))
=============================================================================
