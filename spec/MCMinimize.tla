----------------------------- MODULE MCMinimize -----------------------------
(* Every run of the minimisation design on small candidate sets: pop the   *)
(* best candidate (ties in any order) until a valid one is found, keep it  *)
(* with its reverse, drop what the rules now prove, repeat.  Every outcome *)
(* must satisfy the contract MinimizeOk, which judges recorded runs.       *)
EXTENDS Minimize, Json, IOUtils, FiniteSetsExt
LEVEL == atoi(IOEnv.LEVEL)
Lang == "toyf"
A == <<"?a">>  B == <<"?b">>  N0 == <<"0">>  N1 == <<"1">>
P2(x, y) == <<"+", x, y>>
M2(x, y) == <<"*", x, y>>
Ng(x) == <<"~", x>>
Pool == << <<P2(A, B), P2(B, A)>>, <<P2(A, N0), A>>, <<Ng(Ng(A)), A>>, <<A, Ng(Ng(A))>>,
           <<P2(B, P2(A, N0)), P2(A, B)>>, <<M2(A, N1), A>>,
           <<P2(A, A), A>>, <<Ng(A), A>>, <<A, Ng(A)>>,
           <<P2(A, Ng(A)), N0>>, <<P2(Ng(A), A), N0>> >>
NP == IF LEVEL = 1 THEN 9 ELSE 11
Priors == {<<>>, <<Pool[1]>>, <<Pool[3], Pool[2]>>}
Scheds == IF LEVEL = 1 THEN {"compress"} ELSE {"compress", "simple", "sat"}
Most == IF LEVEL = 1 THEN 3 ELSE 4
VARIABLES todo, got, inv, pc, run
vars == <<todo, got, inv, pc, run>>
Valid == [r \in {Pool[i] : i \in 1..Len(Pool)} |-> ValidRule(Lang, r[1], r[2])]
Init == /\ \E X \in UNION {kSubset(n, 1..NP) : n \in 1..Most} : \E p \in Priors : \E s \in Scheds :
             run = [cands |-> [i \in 1..Cardinality(X) |-> Pool[SetToSortSeq(X, <)[i]]], prior |-> p, s |-> s]
        /\ todo = {run.cands[i] : i \in 1..Len(run.cands)}
        /\ got = <<>> /\ inv = {} /\ pc = "pick"
Chosen == run.prior \o got
ChosenS == {Chosen[i] : i \in 1..Len(Chosen)}
AddNew(s, r) == IF r \in ChosenS \/ r \in {s[i] : i \in 1..Len(s)} THEN s ELSE Append(s, r)
Best == {r \in todo : \A q \in todo : CmpScore(r, q) >= 0}
Pick == /\ pc = "pick" /\ todo # {}
        /\ \E r \in Best :
             LET rv == Rev(r)  has == rv \in todo IN
             /\ todo' = todo \ {r}
             /\ got' = LET x == IF Valid[r] THEN AddNew(got, r) ELSE got
                       IN IF has /\ Valid[rv] THEN AddNew(x, rv) ELSE x
             /\ inv' = inv \cup {q \in {r} \cup (IF has THEN {rv} ELSE {}) : ~Valid[q]}
             /\ pc' = IF Valid[r] \/ (has /\ Valid[rv]) THEN "shrink" ELSE "pick"
        /\ UNCHANGED run
Drop == /\ pc = "shrink"
        /\ todo' = Shrink(run.s, todo, Chosen, 2)
        /\ pc' = "pick" /\ UNCHANGED <<got, inv, run>>
Next == Pick \/ Drop
Finished == pc = "pick" /\ todo = {}
\* validity does not depend on the direction
Symmetric == \A r \in DOMAIN Valid : Rev(r) \in DOMAIN Valid => Valid[r] = Valid[Rev(r)]
OnlyValid == \A i \in 1..Len(got) : Valid[got[i]]
OnlyInvalid == \A r \in inv : ~Valid[r]
NoPrior == \A i \in 1..Len(got) : got[i] \notin {run.prior[j] : j \in 1..Len(run.prior)}
\* at any moment a valid candidate is waiting, kept, known, or already proved
Covered == pc = "pick" =>
  LET cs == run.cands
      g == AddTerms(Empty, FlattenSeq([i \in 1..Len(cs) |-> LeafT(cs[i])]))
      hh == RunSched(NoData, run.s, g, Chosen, 2).g
  IN \A i \in 1..Len(cs) : (Valid[cs[i]] /\ cs[i] \notin todo) =>
        Lookup(hh, Inst(cs[i][1])) = Lookup(hh, Inst(cs[i][2]))
\* the contract accepts every run of the design
Accepted == Finished => MinimizeOk(Lang, run.s, 2, run.cands, run.prior, got, SetToSeq(inv))
\* and refuses outcomes of no run: nothing kept, a valid rule reported invalid
Refuses == Finished =>
  /\ got # <<>> => ~MinimizeOk(Lang, run.s, 2, run.cands, run.prior, <<>>, SetToSeq(inv))
  /\ \A r \in {q \in {run.cands[i] : i \in 1..Len(run.cands)} : Valid[q]} :
       ~MinimizeOk(Lang, run.s, 2, run.cands, run.prior, got, SetToSeq(inv \cup {r}))
Emit == (pc = "pick" /\ got = <<>> /\ inv = {} /\ Cardinality(todo) = Len(run.cands)) =>
          PrintT(ToJson(<< [op |-> "min", cands |-> run.cands, prior |-> run.prior, s |-> run.s, it |-> 2] >>))
=============================================================================
