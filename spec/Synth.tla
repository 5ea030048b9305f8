------------------------------- MODULE Synth -------------------------------
(* Contracts of the recipes: rule inference over a workload, recursive     *)
(* inference, fast-forwarding.                                             *)
EXTENDS Minimize

\* every learned rule is valid and new
LearnedOk(lang, prior, learned) ==
  \A i \in 1..Len(learned) :
    /\ learned[i] \notin {prior[j] : j \in 1..Len(prior)}
    /\ ValidRule(lang, learned[i][1], learned[i][2])
    /\ VarsOf(learned[i][2]) \subseteq VarsOf(learned[i][1])
\* operators and constants of rules come from the workload
Symbols(lang, t) == OpsOf(t) \cup {x \in LeavesOf(t) : ~VarLeaf(lang, x)}
PSymbols(p) == OpsOf(p) \cup {x \in LeavesOf(p) : ~IsVar(x)}
OverWorkload(lang, ts, learned) ==
  LET syms == UNION {Symbols(lang, ts[i]) : i \in 1..Len(ts)}
  IN \A i \in 1..Len(learned) : PSymbols(learned[i][1]) \cup PSymbols(learned[i][2]) \subseteq syms

(* Pairs of terms that must end up proved: equal on every input, defined   *)
(* on some sample, and expressible as a rule between the smallest forms    *)
(* the prior rules give their classes (e-graph g, smallest terms mt).      *)
TermVars(lang, T) == UNION {TVars(lang, t) : t \in T}
Expressible(lang, S1, S2) ==
  \A e \in S1, f \in S2 : TVars(lang, e) \subseteq TVars(lang, f) \/ TVars(lang, f) \subseteq TVars(lang, e)
MustProve(lang, T, g, mt) ==
  LET V == TermVars(lang, T)
      A == SetToSeq([V -> Universe(lang)])
      B == SetToSeq([V -> Samples(lang)])
      fv == TLCEval([t \in T |-> TLCEval([i \in 1..Len(A) |-> EvalT(lang, t, A[i])])])
      df == {t \in T : \E i \in 1..Len(B) : EvalT(lang, t, B[i]) # NONE}
      cl == TLCEval([t \in T |-> Lookup(g, t)])
      groups == {{t \in df : fv[t] = fv[u]} : u \in df}
  IN UNION {{p \in G \X G : /\ cl[p[1]] < cl[p[2]]
                           /\ cl[p[1]] \in DOMAIN mt /\ cl[p[2]] \in DOMAIN mt
                           /\ Expressible(lang, mt[cl[p[1]]], mt[cl[p[2]]])} : G \in groups}
\* all renamings of the terms by permutations of their variables
Renamed(lang, T) ==
  LET V == TermVars(lang, T)
      Q == {f \in [V -> V] : \A x, y \in V : x # y => f[x] # f[y]}
  IN UNION {{SubstT(t, [x \in V |-> <<f[x]>>]) : t \in T} : f \in Q}
(* Run rules over the terms until the pairs are proved, nothing changes,   *)
(* or k rounds; "open" = some pair stays unproved, "?" = gave up.          *)
RECURSIVE ProveLoop(_, _, _, _)
ProveLoop(g, rules, P, k) ==
  LET open == {p \in P : Lookup(g, p[1]) # Lookup(g, p[2])} IN
  CASE open = {} -> "proved"
    [] NumNodes(g) > 500 \/ k = 0 -> "?"
    [] OTHER -> LET n == Round(NoData, g, rules).g IN IF n = g THEN "open" ELSE ProveLoop(n, rules, open, k - 1)
Prove(lang, rules, T, P, k) ==
  IF P = {} THEN "proved" ELSE ProveLoop(AddTerms(Empty, SetToSeq(Renamed(lang, T))), rules, P, k)

\* the same for pairs of classes, each given by its smallest terms: some choice of
\* terms must be proved equal
RECURSIVE ProveSome(_, _, _, _, _)
ProveSome(g, rules, mt, P, k) ==
  LET open == {p \in P : \A e \in mt[p[1]], f \in mt[p[2]] : Lookup(g, e) # Lookup(g, f)} IN
  CASE open = {} -> "proved"
    [] NumNodes(g) > 500 \/ k = 0 -> "?"
    [] OTHER -> LET n == Round(NoData, g, rules).g IN IF n = g THEN "open" ELSE ProveSome(n, rules, mt, open, k - 1)

\* smallest forms after compressing the terms with the prior rules
Prepared(lang, ts, prior, pit) == Compress(NoData, AddTerms(Empty, ts), prior, pit).g
SynthGoal(lang, ts, prior, pit) ==
  LET g == Prepared(lang, ts, prior, pit)
  IN MustProve(lang, {ts[i] : i \in 1..Len(ts)}, g, MinTerms(g, "any"))

\* outcome "ok", "bad" or "?" (coverage not decided)
SynthRes(lang, ts, prior, learned, pit, k) ==
  IF ~(learned # <<>> /\ LearnedOk(lang, prior, learned) /\ OverWorkload(lang, ts, learned)) THEN "bad"
  ELSE LET r == Prove(lang, prior \o learned, {ts[i] : i \in 1..Len(ts)}, SynthGoal(lang, ts, prior, pit), k)
       IN IF r = "open" THEN "bad" ELSE IF r = "?" THEN "?" ELSE "ok"
NothingRes(lang, ts, prior, pit, k) ==
  LET r == Prove(lang, prior, {ts[i] : i \in 1..Len(ts)}, SynthGoal(lang, ts, prior, pit), k)
  IN IF r = "open" THEN "bad" ELSE IF r = "?" THEN "?" ELSE "ok"

-----------------------------------------------------------------------------
(* Terms of a language up to a bound: variables, values, operators by      *)
(* arity; only those that mention a variable.                              *)
RECURSIVE Msr(_, _)
Msr(m, t) == LET ks == TLCEval([i \in 1..(Len(t)-1) |-> Msr(m, t[i+1])]) IN
  CASE m = "Atoms" -> 1 + SumS(ks)
    [] m = "Lists" -> (IF Len(t) > 1 THEN 1 ELSE 0) + SumS(ks)
    [] m = "Depth" -> IF Len(t) = 1 THEN 1 ELSE 1 + FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, ks)
RECURSIVE LangT(_, _, _, _, _, _)
LangT(vars, vals, ops, m, n, k) ==
  LET leaves == {<<x>> : x \in vars \cup vals}
      lv == {t \in leaves : Msr(m, t) <= n}
  IN IF k = 0 THEN lv
     ELSE LET S == LangT(vars, vals, ops, m, n, k - 1)
              ext(a) == {s \in UNION {{<<o>> \o ks : ks \in [1..a -> S]} : o \in {ops[a][i] : i \in 1..Len(ops[a])}} : Msr(m, s) <= n}
          IN lv \cup UNION {ext(a) : a \in 1..Len(ops)}
LangTerms(vars, vals, ops, m, n) ==
  {t \in LangT(vars, vals, ops, m, n, n) : LeavesOf(t) \cap vars # {}}
\* known = the rules of the previous size are recorded in prev
RecRes(lang, m, n, vars, vals, ops, prior, known, prev, all, k) ==
  LET A == {all[i] : i \in 1..Len(all)}
      pr == {prior[i] : i \in 1..Len(prior)}
      B == {prev[i] : i \in 1..Len(prev)} \cup pr
      ts == SetToSeq(LangTerms(vars, vals, ops, m, n))
      syms == {x \in UNION {ToSet(ops[i]) : i \in 1..Len(ops)} : TRUE} \cup vals
  IN IF ~ /\ B \subseteq A
          /\ Cardinality(A) = Len(all)
          /\ \A r \in A \ pr : /\ ValidRule(lang, r[1], r[2])
                              /\ PSymbols(r[1]) \cup PSymbols(r[2]) \subseteq syms
     THEN "bad"
     ELSE LET old == IF known THEN prev ELSE prior
              r == Prove(lang, all, ToSet(ts), SynthGoal(lang, ts, old, 2), k)
          IN IF r = "open" THEN "bad" ELSE IF r = "?" \/ (~known /\ n > 1) THEN "?" ELSE "ok"
RecNothing(lang, m, n, vars, vals, ops, prev, k) ==
  NothingRes(lang, SetToSeq(LangTerms(vars, vals, ops, m, n)), prev, 2, k)

-----------------------------------------------------------------------------
(* Fast-forwarding.                                                        *)
IsAllowedRule(lang, r) == AllowedT(lang, r[1]) /\ AllowedT(lang, r[2])
FFRes(lang, ts, prior, expl, learned, pit, k) ==
  LET T == {ts[i] : i \in 1..Len(ts)}
      D == NoData
      g1 == Compress(D, AddTerms(Empty, ts), SelectSeq(prior, LAMBDA r : IsAllowedRule(lang, r)), pit).g
      g2 == Simple(D, g1, expl, pit).g
      g3 == Compress(D, g2, prior \o expl, pit).g
      \* consequence: the rule holds for some distinct leaves of the final e-graph
      vs == TermVars(lang, T)
      holds(r) == LET pv == VarsOf(r[1]) IN
        \E f \in {f \in [pv -> vs] : \A x, y \in pv : x # y => f[x] # f[y]} :
          LET s == [x \in pv |-> <<f[x]>>]
              a == Lookup(g3, SubstT(r[1], s))
          IN a # NONE /\ a = Lookup(g3, SubstT(r[2], s))
      mt == MinTerms(g1, lang)
      P == {p \in T \X T : /\ AllowedT(lang, p[1]) /\ AllowedT(lang, p[2])
                           /\ LET a == Lookup(g1, p[1])  b == Lookup(g1, p[2]) IN
                              a < b /\ Expressible(lang, mt[a], mt[b])
                           /\ Lookup(g2, p[1]) = Lookup(g2, p[2])}
      \* classes of g2 merged by all rules together, by their smallest allowed terms
      mt2 == MinTerms(g2, lang)
      Q == {p \in MergedPairs(g2, g3) : p[1] \in DOMAIN mt2 /\ p[2] \in DOMAIN mt2}
      QE == {p \in Q : Expressible(lang, mt2[p[1]], mt2[p[2]])}
      all == T \cup UNION {mt2[p[1]] \cup mt2[p[2]] : p \in Q}
      r2 == IF QE = {} THEN "proved"
            ELSE IF Cardinality(all) > 80 THEN "?"
            ELSE ProveSome(AddTerms(Empty, SetToSeq(Renamed(lang, all))), prior \o learned, mt2, QE, k)
  IN IF ~ /\ LearnedOk(lang, prior, learned)
          /\ \A i \in 1..Len(learned) : IsAllowedRule(lang, learned[i]) /\ holds(learned[i])
     THEN "bad"
     ELSE LET r1 == Prove(lang, prior \o learned, T, P, k)
              r == IF r1 = "proved" THEN r2 ELSE r1
          IN IF r = "open" THEN "bad" ELSE IF r = "?" THEN "?" ELSE "ok"
=============================================================================
