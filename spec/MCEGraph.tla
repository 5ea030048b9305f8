------------------------------ MODULE MCEGraph ------------------------------
(* Small e-graph histories: build, merge, run one of the schedules.        *)
(* The functional definitions of EGraph are checked against independent    *)
(* ones: a naive congruence relation on terms and all two-element models.  *)
(* MODE: "close" (merging terms), or a schedule, or "der".                 *)
EXTENDS EGraph, Json, IOUtils
MODE  == IOEnv.MODE
LEVEL == atoi(IOEnv.LEVEL)
VARIABLES g, prev, eqs, hist, rs
vars == <<g, prev, eqs, hist, rs>>

a == <<"a">>  b == <<"b">>
G1(t) == <<"g", t>>
F2(t, u) == <<"f", t, u>>
Terms == << F2(a, b), G1(F2(a, b)), F2(G1(a), G1(a)), G1(G1(a)), F2(F2(a, b), b), G1(b), F2(b, a) >>
NT == IF LEVEL = 1 THEN 5 ELSE 7
px == <<"?x">>  py == <<"?y">>
Rules == << <<F2(px, py), F2(py, px)>>,                      \* commutes
            <<F2(px, px), px>>,                              \* collapses, non-linear
            <<G1(G1(px)), px>>,                              \* collapses
            <<G1(F2(px, py)), F2(G1(px), G1(py))>>,          \* grows
            <<F2(px, G1(py)), F2(px, py)>>,
            <<G1(px), F2(px, px)>>,                          \* grows
            <<F2(a, px), G1(px)>>,                           \* a ground leaf
            <<F2(px, F2(py, px)), G1(py)>> >>
NR == IF LEVEL = 1 THEN 6 ELSE 8
RuleSets == {<<Rules[i]>> : i \in 1..NR} \cup {<<Rules[p[1]], Rules[p[2]]>> : p \in {p \in (1..NR) \X (1..NR) : p[1] < p[2]}}
Its == IF MODE = "close" THEN {} ELSE IF LEVEL = 1 THEN {1, 2} ELSE {0, 1, 2, 3}
BuildRec(ts) == [op |-> "build", d |-> 1, terms |-> ts, unions |-> <<>>]
Init == /\ eqs = {} /\ rs = <<>> /\ prev = Empty
        /\ \E i \in 1..NT, j \in 1..NT : i <= j /\ hist = <<BuildRec(<<Terms[i], Terms[j]>>)>>
        /\ g = AddTerms(Empty, hist[1].terms)
Unions == {<<a, b>>, <<F2(a, b), a>>, <<G1(a), b>>, <<G1(G1(a)), a>>, <<F2(a, b), G1(F2(a, b))>>, <<a, G1(a)>>}
Unite == /\ Len(hist) <= (IF MODE = "close" THEN 2 + LEVEL ELSE 1) /\ rs = <<>>
         /\ \E u \in Unions :
              /\ u \notin eqs
              /\ prev' = g /\ g' = UnionTerms(g, u[1], u[2]) /\ eqs' = eqs \cup {u} /\ rs' = rs
              /\ hist' = Append(hist, [op |-> "union", d |-> 1, a |-> u[1], b |-> u[2]])
Runs == /\ MODE \in {"simple", "sat", "compress"} /\ rs = <<>>
        /\ \E R \in RuleSets : \E k \in Its :
              /\ prev' = g /\ g' = RunSched(NoData, MODE, g, R, k).g /\ eqs' = eqs /\ rs' = R
              /\ hist' = Append(hist, [op |-> "run", d |-> 2, g |-> 1, s |-> MODE, it |-> k, rules |-> R])
Next == Unite \/ Runs

-----------------------------------------------------------------------------
(* Equality in every two-element model: a model gives the leaves values    *)
(* and the operators tables.                                               *)
Models == [a : {0, 1}, b : {0, 1}, g : [{0, 1} -> {0, 1}], f : [{0, 1} \X {0, 1} -> {0, 1}]]
RECURSIVE Val(_, _, _)
Val(m, t, s) == CASE IsVar(t[1]) -> s[t[1]]
                  [] t[1] = "a" -> m.a [] t[1] = "b" -> m.b
                  [] t[1] = "g" -> m.g[Val(m, t[2], s)]
                  [] t[1] = "f" -> m.f[<<Val(m, t[2], s), Val(m, t[3], s)>>]
Holds(m, r) == \A s \in [VarsOf(r[1]) -> {0, 1}] : Val(m, r[1], s) = Val(m, r[2], s)
ModelsOf(R) == {m \in Models : \A i \in 1..Len(R) : Holds(m, R[i])}
RuleModels == [R \in RuleSets \cup {<<>>} |-> ModelsOf(R)]
\* the value of every class is well defined in every model of the rules and merges
SoundIn(m) == LET tm == TermOf(g)
                  v == [c \in Classes(g) |-> Val(m, tm[c], <<>>)]
              IN \A n \in DOMAIN g : v[g[n]] = Val(m, <<n[1]>> \o [i \in 1..Len(n[2]) |-> tm[n[2][i]]], <<>>)
Sound == \A m \in RuleModels[rs] : (\A u \in eqs : Val(m, u[1], <<>>) = Val(m, u[2], <<>>)) => SoundIn(m)

(* Least congruence on a set of terms, pair by pair.                       *)
RECURSIVE Cong(_, _)
Cong(T, Q) ==
  LET n == Q \cup {<<p[2], p[1]>> : p \in Q}
             \cup {p \in T \X T : \E w \in T : <<p[1], w>> \in Q /\ <<w, p[2]>> \in Q}
             \cup {p \in T \X T : /\ p[1][1] = p[2][1] /\ Len(p[1]) = Len(p[2])
                                  /\ \A i \in 2..Len(p[1]) : <<p[1][i], p[2][i]>> \in Q}
  IN IF n = Q THEN Q ELSE Cong(T, n)
AllTerms == UNION {SubT(hist[1].terms[i]) : i \in 1..Len(hist[1].terms)} \cup UNION {SubT(u[1]) \cup SubT(u[2]) : u \in eqs}
Congruent == rs = <<>> => LET Q == Cong(AllTerms, {<<t, t>> : t \in AllTerms} \cup eqs) IN
               \A t \in AllTerms : \A u \in AllTerms : (Lookup(g, t) = Lookup(g, u)) = (<<t, u>> \in Q)
Complete == \A t \in AllTerms : Lookup(g, t) # NONE

\* nothing is lost, and compression adds nothing
Monotone == Embeds(prev, g)
CompressSmall == (rs # <<>> /\ MODE = "compress") =>
                   /\ NumNodes(g) <= NumNodes(prev) /\ NumClasses(g) <= NumClasses(prev)
\* after the saturating schedule no saturating rule has anything to do
SatDone == (rs # <<>> /\ MODE = "sat") => Round(NoData, g, SelectSeq(rs, LAMBDA r : SatRule(r))).g = g
\* one round of a rule classified as saturating creates no class
NoNewClass == (rs # <<>> /\ MODE = "simple" /\ \A i \in 1..Len(rs) : SatRule(rs[i])) => NumClasses(g) <= NumClasses(prev)
\* one round finds every single rewriting step: instances of a rule whose left side was represented
OneStep == (rs # <<>> /\ MODE = "simple" /\ hist[Len(hist)].it > 0) =>
   LET tm == TermOf(prev) IN
   \A i \in 1..Len(rs) : \A s \in [VarsOf(rs[i][1]) -> Classes(prev)] :
      LET f == [v \in DOMAIN s |-> tm[s[v]]]
          l == SubstT(rs[i][1], f)
      IN Lookup(prev, l) # NONE => Lookup(g, l) = Lookup(g, SubstT(rs[i][2], f))
Done == IF MODE = "close" THEN TRUE ELSE rs # <<>>
Emit == Done => PrintT(ToJson(hist))

-----------------------------------------------------------------------------
(* Derivability between the rules of the pool.                             *)
DerInit == /\ eqs = {} /\ prev = Empty /\ g = Empty /\ rs \in RuleSets
           /\ \E i \in 1..NR, ty \in {"lhs", "both"}, k \in (IF LEVEL = 1 THEN {2} ELSE {0, 1, 3}) : \E fl \in BOOLEAN :
                LET r == IF fl THEN <<Rules[i][2], Rules[i][1]>> ELSE Rules[i] IN
                /\ VarsOf(r[2]) \subseteq VarsOf(r[1])
                /\ hist = << [op |-> "der", ty |-> ty, it |-> k, rules |-> rs, rule |-> r] >>
DerNext == UNCHANGED vars
\* what is derived holds in every two-element model of the rules
DerSound == LET s == hist[1] IN Derive(s.rules, s.rule, s.ty # "lhs", s.it) => \A m \in RuleModels[rs] : Holds(m, s.rule)
\* every rule derives itself and more rounds derive more
DerSelf == LET s == hist[1] IN (s.rule \in {rs[i] : i \in 1..Len(rs)} /\ (s.it > 0 \/ SatRule(s.rule))) => Derive(s.rules, s.rule, s.ty # "lhs", s.it)
DerMore == LET s == hist[1] IN Derive(s.rules, s.rule, s.ty # "lhs", s.it) => Derive(s.rules, s.rule, s.ty # "lhs", s.it + 1)
DerEmit == PrintT(ToJson(hist))
=============================================================================
