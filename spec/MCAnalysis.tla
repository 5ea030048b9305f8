----------------------------- MODULE MCAnalysis -----------------------------
(* Class data in a domain with a partial operator: small histories of      *)
(* building, merging terms that agree, and rewriting with rules valid      *)
(* where both sides are defined.  The vectors, defined by a fixpoint over  *)
(* members, are compared with the values of the terms a class contains.    *)
EXTENDS Synth, Json, IOUtils
LEVEL == atoi(IOEnv.LEVEL)
Lang == "toy"                   \* samples 0 and 1
X == <<"x">>  N0 == <<"0">>  N1 == <<"1">>
D2(t, u) == <<"/", t, u>>
M2(t, u) == <<"*", t, u>>
P2(t, u) == <<"+", t, u>>
D == [lang |-> Lang, len |-> 2, base |-> [x |-> <<0, 1>>]]
Pool == << D2(N1, X), D2(X, X), M2(X, D2(N1, X)), D2(X, N0), P2(D2(X, N0), X), D2(N1, P2(X, <<"2">>)), M2(D2(X, X), N0),
           D2(N0, N0), P2(X, N0), D2(M2(X, X), X) >>
NP == IF LEVEL = 1 THEN 7 ELSE 10
A == <<"?a">>  B == <<"?b">>
Rules == << <<D2(A, A), N1>>, <<M2(A, N0), N0>>, <<D2(A, B), M2(A, D2(N1, B))>>, <<M2(A, D2(N1, A)), N1>>,
            <<M2(A, N1), A>>, <<P2(A, N0), A>>, <<M2(A, B), M2(B, A)>>, <<A, D2(A, N1)>> >>
VARIABLES g, prev, hist, ran, old
vars == <<g, prev, hist, ran, old>>
VecT(t) == [i \in 1..2 |-> EvalT(Lang, t, [x |-> i - 1])]
Agrees(v, w) == \A i \in 1..2 : v[i] = NONE \/ w[i] = NONE \/ v[i] = w[i]
\* rules that never contradict sampled values
RuleFine(r) == \A a \in [VarsOf(r[1]) -> 0..2] : LET l == EvalT(Lang, r[1], a)  q == EvalT(Lang, r[2], a) IN l = NONE \/ q = NONE \/ l = q
ASSUME \A i \in 1..Len(Rules) : RuleFine(Rules[i])
Start(ts) == AddTerms(Empty, <<X>> \o ts)
Init == /\ \E i \in 1..NP, j \in 1..NP : i < j /\ hist = << [op |-> "build", d |-> 1, vars |-> <<"x">>, terms |-> <<Pool[i], Pool[j]>>, unions |-> <<>>] >>
        /\ g = Start(hist[1].terms) /\ prev = Empty /\ ran = FALSE /\ old = <<>>
Cv == CvOf(D, g)
\* every class keeps one value per position
Consistent(h) == LET cv == CvOf(D, h)  by == ByClass(h) IN
   \A c \in DOMAIN by : \A n \in by[c] : Agrees(EvalNode(D, n, cv), cv[c])
Subs == UNION {SubT(hist[1].terms[i]) : i \in 1..2} \cup {X, N0, N1}
Unite == /\ Len(hist) = 1
         /\ \E t \in Subs, u \in Subs :
              /\ t # u /\ Agrees(VecT(t), VecT(u)) = TRUE /\ (\E i \in 1..2 : VecT(t)[i] # NONE /\ VecT(u)[i] # NONE) = TRUE
              /\ prev' = g /\ g' = UnionTerms(g, t, u) /\ Consistent(g') = TRUE
              /\ hist' = Append(hist, [op |-> "union", d |-> 1, a |-> t, b |-> u])
              /\ ran' = FALSE /\ old' = <<>>
NR == IF LEVEL = 1 THEN 6 ELSE 8
RuleSets == {<<Rules[i]>> : i \in 1..NR} \cup {<<Rules[p[1]], Rules[p[2]]>> : p \in {p \in (1..NR) \X (1..NR) : p[1] < p[2]}}
RunA == /\ ~ran
        /\ \E R \in RuleSets : \E k \in (IF LEVEL = 1 THEN {2} ELSE {1, 2, 3}) : \E s \in {"simple", "compress"} :
             LET r == RunSched(D, s, g, R, k) IN
             /\ ~r.corner /\ (Consistent(r.g) /\ Consistent(Rounds(D, g, R, k).g)) = TRUE
             /\ prev' = g /\ g' = r.g /\ ran' = TRUE /\ old' = Cv
             /\ hist' = Append(hist, [op |-> "run", d |-> 1, g |-> 1, s |-> s, it |-> k, rules |-> R])
Next == Unite \/ RunA
\* the value of a class is the value of each term of it that is defined
Members2 == \A t \in Subs \cup {P2(X, X), M2(X, X), D2(N1, N1), D2(X, N1)} :
              LET c == Lookup(g, t) IN c # NONE => Agrees(VecT(t), Cv[c])
\* and defined exactly where some member is
Exactly == LET by == ByClass(g) IN \A c \in DOMAIN by : \A i \in 1..2 :
              Cv[c][i] # NONE <=> \E n \in by[c] : EvalNode(D, n, Cv)[i] # NONE
AllFine == Consistent(g)
\* definedness never shrinks
Keeps == ran => LET tm == TermOf(prev) IN \A c \in DOMAIN old : \A i \in 1..2 :
              old[c][i] # NONE => Cv[Lookup(g, tm[c])][i] = old[c][i]
\* a class that stays without values has been merged with nothing
UndefinedAlone == ran => LET tm == TermOf(prev) IN \A c \in DOMAIN old : \A e \in DOMAIN old :
              (c # e /\ ~Defined(Cv[Lookup(g, tm[c])])) => Lookup(g, tm[c]) # Lookup(g, tm[e])
                  
Emit == ran => PrintT(ToJson(hist))
=============================================================================
