------------------------------- MODULE Cands -------------------------------
(* Rule candidates: generalisation, smallest terms, and the exact sets of  *)
(* candidates of the two matchers and of candidate extraction.             *)
EXTENDS Analysis

(* Two pairs of terms are the same up to an injective renaming of their    *)
(* variables iff their canonical forms are equal.  isv: which leaves are   *)
(* variables.                                                              *)
CanonPair(l, r, isv(_)) ==
  LET vs == FoldLeft(LAMBDA acc, x : IF isv(x) /\ x \notin {acc[i] : i \in 1..Len(acc)} THEN Append(acc, x) ELSE acc,
                     <<>>, LeafSeq(l) \o LeafSeq(r))
      f == [x \in {vs[i] : i \in 1..Len(vs)} |-> <<"?" \o ToString(CHOOSE i \in 1..Len(vs) : vs[i] = x)>>]
  IN <<SubstT(l, f), SubstT(r, f)>>
CanonTerms(lang, l, r) == LET isv(x) == VarLeaf(lang, x) IN CanonPair(l, r, isv)
CanonRule(r) == CanonPair(r[1], r[2], IsVar)
TVars(lang, t) == {x \in LeavesOf(t) : VarLeaf(lang, x)}

\* smallest terms over the operators allowed in domain w (all if w = "any")
RECURSIVE SizeFix(_, _, _)
SizeFix(by, f, w) ==
  LET best(c) == LET S == {1 + SumS([i \in 1..Len(n[2]) |-> f[n[2][i]]]) :
                            n \in {n \in by[c] : (Len(n[2]) > 0 => AllowedOp(w, n[1])) /\ \A i \in 1..Len(n[2]) : n[2][i] \in DOMAIN f}}
                 IN IF S = {} THEN 0 ELSE SetMin(S)
      C == {c \in DOMAIN by : best(c) > 0}
      nx == [c \in C |-> best(c)]
  IN IF nx = f THEN f ELSE SizeFix(by, nx, w)
RECURSIVE MinT(_, _, _, _)
MinT(by, sz, c, w) ==
  UNION {FoldLeft(LAMBDA acc, i : {Append(a, t) : a \in acc, t \in MinT(by, sz, n[2][i], w)}, {<<n[1]>>},
                  [i \in 1..Len(n[2]) |-> i]) :
         n \in {n \in by[c] : /\ (Len(n[2]) > 0 => AllowedOp(w, n[1]))
                              /\ \A i \in 1..Len(n[2]) : n[2][i] \in DOMAIN sz
                              /\ 1 + SumS([i \in 1..Len(n[2]) |-> sz[n[2][i]]]) = sz[c]}}
MinTerms(g, w) == LET by == ByClass(g)  sz == SizeFix(by, <<>>, w)
                  IN [c \in DOMAIN sz |-> MinT(by, sz, c, w)]

(* cands are exactly the rules for the class pairs P (unordered, by        *)
(* smallest terms mt): sound, complete, and each a well-formed rule.       *)
CandsExact(lang, P, mt, cands) ==
  LET C == {CanonRule(cands[i]) : i \in 1..Len(cands)}
      Q == {p \in P : p[1] \in DOMAIN mt /\ p[2] \in DOMAIN mt}
      can(t, u) == CanonTerms(lang, t, u)
      all == UNION {UNION {{can(t, u), can(u, t)} : t \in mt[p[1]], u \in mt[p[2]]} : p \in Q}
      dir(t, u) == TVars(lang, u) \subseteq TVars(lang, t) => can(t, u) \in C
  IN /\ \A i \in 1..Len(cands) : VarsOf(cands[i][2]) \subseteq VarsOf(cands[i][1])
     /\ C \subseteq all
     /\ \A p \in Q : \E t \in mt[p[1]], u \in mt[p[2]] : dir(t, u) /\ dir(u, t)

\* pairs of classes for the exact and for the fast matcher, from recorded vectors
MatchVec(a, b) == /\ Len(a) = Len(b)
                  /\ \A i \in 1..Len(a) : a[i] = NONE \/ b[i] = NONE \/ a[i] = b[i]
                  /\ \E i \in 1..Len(a) : a[i] # NONE /\ a[i] = b[i]
IdVec(a, b) == a = b /\ \E i \in 1..Len(a) : a[i] # NONE
PairsBy(d, rel(_, _)) ==
  {<<d[i].id, d[j].id>> : i \in 1..Len(d), j \in 1..Len(d)} \cap
  {<<d[ij[1]].id, d[ij[2]].id>> : ij \in {ij \in (1..Len(d)) \X (1..Len(d)) : ij[1] < ij[2] /\ rel(d[ij[1]].cv, d[ij[2]].cv)}}
ExactMatchOk(lang, d, cands) == CandsExact(lang, PairsBy(d, MatchVec), MinTerms(FromDump(d), "any"), cands)
FastMatchOk(lang, d, cands)  == CandsExact(lang, PairsBy(d, IdVec), MinTerms(FromDump(d), "any"), cands)
\* classes distinct in d1 and merged in d2
ExtractOk(lang, d1, d2, cands) ==
  LET g1 == FromDump(d1)
      P == MergedPairs(g1, FromDump(d2))
  IN /\ CandsExact(lang, P, MinTerms(g1, lang), cands)
     /\ \A i \in 1..Len(cands) : AllowedT(lang, cands[i][1]) /\ AllowedT(lang, cands[i][2])

-----------------------------------------------------------------------------
(* Generalising a pair of terms and turning the patterns back.             *)
RECURSIVE SameShape(_, _, _)
SameShape(lang, t, p) ==
  IF Len(t) = 1 THEN Len(p) = 1 /\ (IF VarLeaf(lang, t[1]) THEN IsVar(p[1]) ELSE p = t)
  ELSE /\ Len(p) = Len(t) /\ p[1] = t[1]
       /\ \A i \in 2..Len(t) : SameShape(lang, t[i], p[i])
GenOk(lang, a, b, p, q, ip, iq) ==
  /\ SameShape(lang, a, p) /\ SameShape(lang, b, q)
  /\ CanonTerms(lang, a, b) = CanonPair(p, q, IsVar)
  /\ CanonTerms(lang, ip, iq) = CanonTerms(lang, a, b)
  /\ SameShape(lang, ip, p) /\ SameShape(lang, iq, q)

-----------------------------------------------------------------------------
(* Ranking: more variables, then fewer distinct constants per side,        *)
(* smaller larger side,                                                    *)
(* smaller total size, fewer operators.                                    *)
\* distinct constants of each side
Lits(p) == Cardinality({x \in LeavesOf(p) : IsLit(x)})
Score(r) == LET a == Size(r[1])  b == Size(r[2]) IN
  << Cardinality(VarsOf(r[1]) \cup VarsOf(r[2])),
     -(Lits(r[1]) + Lits(r[2])),
     -(IF a > b THEN a ELSE b),
     -(a + b),
     -Cardinality(OpsOf(r[1]) \cup OpsOf(r[2])) >>
CmpScore(r, s) ==
  LET a == Score(r)  b == Score(s)
      D == {i \in 1..5 : a[i] # b[i]}
  IN IF D = {} THEN 0 ELSE IF a[SetMin(D)] < b[SetMin(D)] THEN -1 ELSE 1
=============================================================================
