-------------------------------- MODULE MCRec --------------------------------
(* Recursive inference as a state machine over small languages: at each    *)
(* size the terms of the language are compressed with everything known,    *)
(* matched, and the candidates minimised; what is learned is added.  Every *)
(* state satisfies the contract RecRes that judges recorded runs, and the  *)
(* contract notices rules that are lost.  Each language is replayed.       *)
EXTENDS Synth, Json, IOUtils
LEVEL == atoi(IOEnv.LEVEL)
A == <<"?a">>  B == <<"?b">>
Comm(o) == <<<<o, A, B>>, <<o, B, A>>>>
\* languages over the toy domain and over two-bit vectors
Kinds == IF LEVEL = 1 THEN {"toyf", "bv1"} ELSE {"toyf", "toy", "bv1", "bv2"}
Ops(lang) == IF lang \in Toys THEN {<<<<"~">>, <<"+">>>>, <<<<>>, <<"*">>>>, <<<<"s">>, <<"/">>>>, <<<<"~">>, <<>>, <<>>>>}
             ELSE {<<<<"~">>, <<"&">>>>, <<<<"-">>, <<>>>>, <<<<>>, <<"^">>, <<>>>>}
Priors(lang) == {<<>>} \cup (IF lang \in Toys THEN {<<Comm("+")>>, <<<<<<"~", <<"~", A>>>>, A>>>>} ELSE {<<Comm("&")>>})
Top(m) == CASE m = "Atoms" -> IF LEVEL = 1 THEN 2 ELSE 3 [] m = "Depth" -> 2 [] OTHER -> 1
VARIABLES run, n, prev, rules, stuck
vars == <<run, n, prev, rules, stuck>>
Init == /\ \E l \in Kinds : \E o \in Ops(l), p \in Priors(l), v \in {{"x"}, {"x", "y"}}, w \in {{}, {"0"}} \cup (IF LEVEL = 1 THEN {} ELSE {{"1"}}), m \in {"Atoms", "Depth", "Lists"} :
             /\ (LEVEL = 1 /\ m # "Atoms") => v = {"x"}
             /\ run = [lang |-> l, ops |-> o, prior |-> p, vars |-> v, vals |-> w, m |-> m]
        /\ n = 0 /\ prev = <<>> /\ rules = <<>> /\ stuck = FALSE
Lang == run.lang
ExtractOne(S) == CHOOSE t \in S : TRUE
Data(ts) ==
  LET V == TermVars(Lang, ts)  rows == SetToSeq([V -> Samples(Lang)]) IN
  [lang |-> Lang, len |-> Len(rows), base |-> [v \in V |-> [i \in 1..Len(rows) |-> rows[i][v]]]]
Candidates(g, ts) ==
  LET D == Data(ts)
      cv == CvOf(D, g)
      mt == MinTerms(g, "any")
      M == {p \in (DOMAIN cv) \X (DOMAIN cv) : p[1] # p[2] /\ (IdVec(cv[p[1]], cv[p[2]])) = TRUE}
      R == {CanonTerms(Lang, ExtractOne(mt[p[1]]), ExtractOne(mt[p[2]])) : p \in M}
  IN {r \in R : VarsOf(r[2]) \subseteq VarsOf(r[1])}
RECURSIVE Choose(_, _, _)
Choose(rem, known, got) ==
  LET V == {r \in rem : ValidRule(Lang, r[1], r[2])} IN
  IF V = {} THEN got
  ELSE LET r == CHOOSE r \in V : \A q \in V : CmpScore(r, q) >= 0
           ks == {known[i] : i \in 1..Len(known)}
           take == SelectSeq(<<r>> \o (IF Rev(r) \in V /\ Rev(r) # r THEN <<Rev(r)>> ELSE <<>>), LAMBDA q : q \notin ks)
       IN Choose(Shrink("compress", V \ {r}, known \o take, 2), known \o take, got \o take)
Old == IF n = 0 THEN run.prior ELSE rules
Learn == LET T == LangTerms(run.vars, run.vals, run.ops, run.m, n + 1)
             g == Compress(NoData, AddTerms(Empty, SetToSeq(T)), Old, 2).g
         IN Choose(Candidates(g, T), Old, <<>>)
Next == /\ n < Top(run.m) /\ ~stuck
        /\ n' = n + 1 /\ prev' = rules /\ run' = run
        /\ LET new == Learn IN /\ rules' = new \o Old
                               /\ stuck' = (new = <<>> /\ n + 1 >= 3)
Res(all) == RecRes(Lang, run.m, n, run.vars, run.vals, run.ops, run.prior, n > 1, prev, all, 4)
Contract == n > 0 => IF stuck THEN RecNothing(Lang, run.m, n, run.vars, run.vals, run.ops, prev, 4) # "bad" ELSE Res(rules) # "bad"
Keeps == /\ n > 0 => {run.prior[i] : i \in 1..Len(run.prior)} \subseteq {rules[i] : i \in 1..Len(rules)}
         /\ {prev[i] : i \in 1..Len(prev)} \subseteq {rules[i] : i \in 1..Len(rules)}
\* a rule given or known before is missed
Notices == \A i \in 1..Len(rules) : (rules[i] \in {prev[j] : j \in 1..Len(prev)} \cup {run.prior[j] : j \in 1..Len(run.prior)}) =>
              Res(SubSeq(rules, 1, i - 1) \o SubSeq(rules, i + 1, Len(rules))) = "bad"
Emit == n = 0 => PrintT(ToJson(<< <<Lang>>, [k \in 1..Top(run.m) |->
   [op |-> "rec", m |-> run.m, n |-> k, vars |-> SetToSeq(run.vars), vals |-> SetToSeq(run.vals), ops |-> run.ops, prior |-> run.prior, k |-> 4]] >>))
=============================================================================
