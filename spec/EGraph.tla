------------------------------- MODULE EGraph -------------------------------
(* E-graphs, pattern matching, congruence closure, equality saturation and *)
(* the three schedules.                                                    *)
(*                                                                         *)
(* A term or pattern is <<op, kid1, .., kidn>>; a pattern variable is      *)
(* <<"?x">>.  An e-graph is a function from nodes <<op, <<class,..>>>> to  *)
(* classes (positive or zero integers), congruence-closed: a function has  *)
(* one value per node.  A rule is <<lhs, rhs>>.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

IsVar(op) == Len(op) > 1 /\ SubSeq(op, 1, 1) = "?"
Idx(p)    == [i \in 1..(Len(p) - 1) |-> i + 1]
Rng(f)    == {f[x] : x \in DOMAIN f}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
SumS(s)   == FoldLeft(LAMBDA a, b : a + b, 0, s)

RECURSIVE VarsOf(_)
VarsOf(p) == IF IsVar(p[1]) THEN {p[1]} ELSE UNION {VarsOf(p[i]) : i \in 2..Len(p)}
RECURSIVE LeavesOf(_)
LeavesOf(p) == IF Len(p) = 1 THEN {p[1]} ELSE UNION {LeavesOf(p[i]) : i \in 2..Len(p)}
RECURSIVE SubT(_)
SubT(p) == {p} \cup UNION {SubT(p[i]) : i \in 2..Len(p)}
RECURSIVE Size(_)
Size(p) == 1 + SumS([i \in 1..(Len(p)-1) |-> Size(p[i+1])])
RECURSIVE OpsOf(_)
OpsOf(p) == IF Len(p) = 1 THEN {} ELSE {p[1]} \cup UNION {OpsOf(p[i]) : i \in 2..Len(p)}
\* pattern -> term: the variable ?x becomes the leaf x
RECURSIVE Inst(_)
Inst(p) == IF Len(p) = 1 THEN (IF IsVar(p[1]) THEN <<SubSeq(p[1], 2, Len(p[1]))>> ELSE p)
           ELSE <<p[1]>> \o [i \in 1..(Len(p)-1) |-> Inst(p[i+1])]
\* apply a function from leaf names to terms
RECURSIVE SubstT(_, _)
SubstT(p, f) == IF Len(p) = 1 THEN (IF p[1] \in DOMAIN f THEN f[p[1]] ELSE p)
                ELSE <<p[1]>> \o [i \in 1..(Len(p)-1) |-> SubstT(p[i+1], f)]

-----------------------------------------------------------------------------
Classes(g) == Rng(g)
NumClasses(g) == Cardinality(Classes(g))
NumNodes(g) == Cardinality(DOMAIN g)
ByClass(g) == LET K == DOMAIN g IN [c \in Classes(g) |-> {k \in K : g[k] = c}]
Fresh(g)   == IF DOMAIN g = {} THEN 1 ELSE SetMax(Classes(g)) + 1
NONE == -1

\* class of a term, NONE if not represented
RECURSIVE Lookup(_, _)
Lookup(g, t) ==
  LET ch == TLCEval([i \in 1..(Len(t)-1) |-> Lookup(g, t[i+1])]) IN
  IF NONE \in Rng(ch) THEN NONE
  ELSE LET k == <<t[1], ch>> IN IF k \in DOMAIN g THEN g[k] ELSE NONE

\* adding an instantiated pattern: st = [g, nx, c, new, hit]; new = nodes created, in
\* order; hit = nodes found
RECURSIVE AddP(_, _, _)
AddP(st, p, s) ==
  IF IsVar(p[1]) THEN [st EXCEPT !.c = s[p[1]]]
  ELSE LET r == FoldLeft(LAMBDA acc, i : LET a == AddP(acc.st, p[i], s)
                                         IN [st |-> a, ch |-> Append(acc.ch, a.c)],
                         [st |-> st, ch |-> <<>>], Idx(p))
           k == <<p[1], r.ch>>
       IN IF k \in DOMAIN r.st.g THEN [r.st EXCEPT !.c = r.st.g[k], !.hit = @ \cup {k}]
          ELSE [g |-> (k :> r.st.nx) @@ r.st.g, nx |-> r.st.nx + 1, c |-> r.st.nx,
                new |-> Append(r.st.new, k), hit |-> r.st.hit]
StAt(g, n) == [g |-> g, nx |-> n, c |-> NONE, new |-> <<>>, hit |-> {}]
St0(g) == StAt(g, Fresh(g))
AddTerm(g, t) == AddP(St0(g), t, <<>>)
AddTerms(g, ts) == FoldLeft(LAMBDA acc, t : AddTerm(acc, t).g, g, ts)
Empty == [k \in {} |-> 0]

\* least congruence containing g and the pairs of classes in P; lab maps the
\* classes of g to those of the result
RECURSIVE CloseN(_, _, _)
CloseN(N, lab0, P) ==
  IF P = {} THEN [g |-> [k \in {n[1] : n \in N} |-> (CHOOSE n \in N : n[1] = k)[2]], lab |-> lab0]
  ELSE LET lab == FoldLeft(LAMBDA f, p :
                     LET a == f[p[1]] b == f[p[2]] IN
                     IF a = b THEN f
                     ELSE LET lo == IF a < b THEN a ELSE b
                              hi == IF a < b THEN b ELSE a
                          IN [c \in DOMAIN f |-> IF f[c] = hi THEN lo ELSE f[c]],
                     [c \in Rng(lab0) |-> c], SetToSeq(P))
           M == {<< <<n[1][1], [i \in 1..Len(n[1][2]) |-> lab[n[1][2][i]]]>>, lab[n[2]]>> : n \in N}
           K == {n[1] : n \in M}
           lab2 == [c \in DOMAIN lab0 |-> lab[lab0[c]]]
       IN IF Cardinality(K) = Cardinality(M) THEN CloseN(M, lab2, {})
          ELSE LET groups == [k \in K |-> {n[2] : n \in {m \in M : m[1] = k}}]
                   Q == UNION {LET x == SetMin(groups[k]) IN {<<x, y>> : y \in groups[k] \ {x}} : k \in K}
               IN CloseN(M, lab2, Q)
CloseL(g, P) == LET Q == {p \in P : p[1] # p[2]}
                    id == [c \in Classes(g) |-> c]
                IN IF Q = {} THEN [g |-> g, lab |-> id]
                   ELSE CloseN({<<k, g[k]>> : k \in DOMAIN g}, id, Q)
Close(g, P) == CloseL(g, P).g

UnionTerms(g, t, u) ==
  LET a == AddTerm(g, t)  b == AddTerm(a.g, u) IN Close(b.g, {<<a.c, b.c>>})

-----------------------------------------------------------------------------
(* E-matching: all substitutions (variable -> class) under which pattern p *)
(* is a member of class c.                                                 *)
RECURSIVE MatchP(_, _, _, _)
MatchP(by, p, c, S) ==
  IF IsVar(p[1])
  THEN {IF p[1] \in DOMAIN s THEN s ELSE s @@ (p[1] :> c) :
          s \in {s \in S : p[1] \notin DOMAIN s \/ s[p[1]] = c}}
  ELSE UNION {FoldLeft(LAMBDA acc, i : MatchP(by, p[i], n[2][i-1], acc), S, Idx(p)) :
                n \in {n \in by[c] : n[1] = p[1] /\ Len(n[2]) = Len(p) - 1}}
EMatches(g, p) == LET by == ByClass(g) IN
  UNION {{<<c, s>> : s \in MatchP(by, p, c, {<<>>})} : c \in DOMAIN by}

-----------------------------------------------------------------------------
(* Domains: value of an operator on values (NONE = undefined).             *)
Bvs == {"bv1", "bv2", "bv3", "bv4", "bv8"}
Width(lang) == CASE lang = "bv1" -> 1 [] lang = "bv2" -> 2 [] lang = "bv3" -> 3
                 [] lang = "bv4" -> 4 [] lang = "bv8" -> 8
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
LitTab == [s \in {ToString(n) : n \in 0..300} |-> CHOOSE n \in 0..300 : ToString(n) = s]
IsLit(op) == op \in DOMAIN LitTab
RECURSIVE BitOp(_, _, _, _)
BitOp(op, a, b, w) ==
  IF w = 0 THEN 0
  ELSE LET x == a % 2  y == b % 2
           z == CASE op = "&" -> x * y
                  [] op = "|" -> IF x + y > 0 THEN 1 ELSE 0
                  [] op = "^" -> (x + y) % 2
       IN z + 2 * BitOp(op, a \div 2, b \div 2, w - 1)
BvOp(w, op, v) ==
  LET M == Pow2(w) IN
  CASE op = "+"  -> (v[1] + v[2]) % M
    [] op = "--" -> (v[1] - v[2]) % M
    [] op = "*"  -> (v[1] * v[2]) % M
    [] op = "-"  -> (M - v[1]) % M
    [] op = "~"  -> M - 1 - v[1]
    [] op = "<<" -> IF v[2] >= w THEN 0 ELSE (v[1] * Pow2(v[2])) % M
    [] op = ">>" -> IF v[2] >= w THEN 0 ELSE v[1] \div Pow2(v[2])
    [] op \in {"&", "|", "^"} -> BitOp(op, v[1], v[2], w)
ToyOp(op, v) ==
  CASE op = "+" -> (v[1] + v[2]) % 3
    [] op = "*" -> (v[1] * v[2]) % 3
    [] op = "/" -> IF v[2] = 0 THEN NONE ELSE (v[1] * v[2]) % 3
    [] op = "~" -> (3 - v[1]) % 3
    [] op = "g" -> (v[1] + 3 - v[2]) % 3
    [] op = "s" -> (v[1] + 1) % 3
    [] op = "m" -> (v[1] * v[2] * v[2] + v[3]) % 3
Toys == {"toy", "toyf", "toya", "toyx"}
OpVal(lang, op, v) ==
  IF Len(v) = 0 THEN (CASE ~IsLit(op) -> NONE
                        [] lang \in Bvs -> LitTab[op] % Pow2(Width(lang))
                        [] OTHER -> LitTab[op] % 3)
  ELSE IF \E i \in 1..Len(v) : v[i] = NONE THEN NONE
  ELSE IF lang \in Bvs THEN BvOp(Width(lang), op, v) ELSE ToyOp(op, v)
\* sample values of a domain
Samples(lang) ==
  CASE lang = "toy" -> {0, 1}
    [] lang \in {"toyf", "toya", "toyx"} -> {0, 1, 2}
    [] OTHER -> LET M == Pow2(Width(lang)) IN
         {0, 1, M - 1, M \div 2, (M \div 2 + 1) % M, M \div 2 - 1, (M \div 2 + M - 2) % M}
Universe(lang) == IF lang \in Toys THEN 0..2 ELSE 0..(Pow2(Width(lang)) - 1)
\* operators that may occur in rules
AllowedOp(lang, op) == ~(lang = "toyx" /\ op \in {"g", "s"})
RECURSIVE AllowedT(_, _)
AllowedT(lang, p) == (Len(p) > 1 => AllowedOp(lang, p[1])) /\ \A i \in 2..Len(p) : AllowedT(lang, p[i])

\* value of a term under an assignment of its variables
RECURSIVE EvalT(_, _, _)
EvalT(lang, t, asg) ==
  IF Len(t) = 1 /\ t[1] \in DOMAIN asg THEN asg[t[1]]
  ELSE OpVal(lang, t[1], TLCEval([i \in 1..(Len(t)-1) |-> EvalT(lang, t[i+1], asg)]))
(* A rule is valid if both sides agree (both undefined, or equal) on every *)
(* assignment and are defined on some assignment.  In the domain "toya"    *)
(* validity has a direction: they agree wherever the left side is defined. *)
Asgs(lang, V) == [V -> Universe(lang)]
Agree(lang, l, r) ==
  \A a \in Asgs(lang, VarsOf(l) \cup VarsOf(r)) :
    \/ EvalT(lang, l, a) = EvalT(lang, r, a)
    \/ lang = "toya" /\ EvalT(lang, l, a) = NONE
DefSome(lang, l) == lang \in Bvs \/ \E a \in Asgs(lang, VarsOf(l)) : EvalT(lang, l, a) # NONE
ValidRule(lang, l, r) == Agree(lang, l, r) /\ DefSome(lang, l)

-----------------------------------------------------------------------------
(* Characteristic vectors.  D = [lang, len, base]: base gives the vectors  *)
(* of the variables; len = 0 means that nothing is sampled.                *)
EvalNode(D, n, cv) ==
  IF n[1] \in DOMAIN D.base /\ n[2] = <<>> THEN D.base[n[1]]
  ELSE TLCEval([i \in 1..D.len |-> OpVal(D.lang, n[1], [j \in 1..Len(n[2]) |-> cv[n[2][j]][i]])])
Defined(v) == Len(v) = 0 \/ \E i \in 1..Len(v) : v[i] # NONE
\* least assignment of vectors to classes closed under evaluation of members
Undef(D) == [i \in 1..D.len |-> NONE]
CvStep(D, g, by, cv) ==
  [c \in DOMAIN by |->
     LET vs == {EvalNode(D, n, cv) : n \in by[c]} IN
     [i \in 1..D.len |-> LET ds == {v[i] : v \in vs} \ {NONE} IN
                         IF ds = {} THEN NONE ELSE CHOOSE d \in ds : TRUE]]
RECURSIVE CvFix(_, _, _, _)
CvFix(D, g, by, cv) == LET nx == CvStep(D, g, by, cv) IN IF nx = cv THEN cv ELSE CvFix(D, g, by, nx)
CvOf(D, g) == IF D.len = 0 THEN [c \in Classes(g) |-> <<>>]
              ELSE LET by == ByClass(g) IN CvFix(D, g, by, [c \in DOMAIN by |-> Undef(D)])
NoData == [lang |-> "sym", len |-> 0, base |-> <<>>]

-----------------------------------------------------------------------------
(* One round: every rule at every match at once.  A match whose class or   *)
(* whose instantiated right side has no defined value merges nothing.      *)
(* Result: [g, corner]; corner marks rounds in which the definedness of a  *)
(* new term depends on merges of the same round (their order is not part   *)
(* of the contract).                                                       *)
MatchesOf(g, rules) == UNION {{<<rules[r][2], m[1], m[2]>> : m \in EMatches(g, rules[r][1])} : r \in 1..Len(rules)}
ApplyM(D, g, cv0, ms) ==
  LET step(acc, m) ==
        IF ~Defined(acc.cv[m[2]]) THEN acc
        ELSE LET a == AddP(StAt(acc.g, acc.nx), m[1], m[3])
                 cv1 == FoldLeft(LAMBDA f, k : f @@ (a.g[k] :> EvalNode(D, k, f)), acc.cv, a.new)
             IN [g |-> a.g, nx |-> a.nx, cv |-> cv1,
                 pairs |-> IF Defined(cv1[a.c]) THEN acc.pairs \cup {<<m[2], a.c>>} ELSE acc.pairs,
                 und |-> IF Defined(cv1[a.c]) THEN acc.und ELSE acc.und \cup {a.c},
                 weak |-> acc.weak \/ (D.len > 0 /\ \E k \in a.hit : EvalNode(D, k, cv1) # cv1[a.g[k]])]
      r == FoldLeft(step, [g |-> g, nx |-> Fresh(g), cv |-> cv0, pairs |-> {}, und |-> {}, weak |-> FALSE],
                    SetToSeq(ms))
      q == CloseL(r.g, r.pairs)
      cv2 == CvOf(D, q.g)
  IN [g |-> q.g,
      corner |-> \/ \E u \in r.und : Defined(cv2[q.lab[u]])
                 \/ r.weak /\ \E p \in r.pairs : p[1] # p[2]]
Round(D, g, rules) == ApplyM(D, g, CvOf(D, g), MatchesOf(g, rules))
\* up to k rounds (fewer if nothing changes)
RECURSIVE Rounds(_, _, _, _)
Rounds(D, g, rules, k) ==
  IF k = 0 THEN [g |-> g, corner |-> FALSE]
  ELSE LET r == Round(D, g, rules) IN
       IF r.g = g THEN [g |-> g, corner |-> r.corner]
       ELSE LET q == Rounds(D, r.g, rules, k - 1) IN [g |-> q.g, corner |-> q.corner \/ r.corner]
Simple(D, g, rules, k) == Rounds(D, g, rules, k)

\* saturating rules
LeafT(r) == <<Inst(r[1]), Inst(r[2])>>
SatRule(r) ==
  LET i == LeafT(r)
      a == AddTerm(Empty, i[1])
      b == AddTerm(a.g, i[2])
  IN NumClasses(a.g) >= NumClasses(Close(b.g, {<<a.c, b.c>>}))
Fixpoint(D, g, rules) == Rounds(D, g, rules, 100000)
RECURSIVE SatLoop(_, _, _, _, _)
SatLoop(D, g, sat, oth, k) ==
  LET f == Fixpoint(D, g, sat) IN
  IF k = 0 THEN f
  ELSE LET o == Rounds(D, f.g, oth, 1)
           q == SatLoop(D, o.g, sat, oth, k - 1)
       IN [g |-> q.g, corner |-> q.corner \/ f.corner \/ o.corner]
Saturating(D, g, rules, k) ==
  SatLoop(D, g, SelectSeq(rules, LAMBDA r : SatRule(r)), SelectSeq(rules, LAMBDA r : ~SatRule(r)), k)

\* compression: only the merges between classes of g are kept
TermOf(g) ==  \* some term of every class (smallest first)
  LET RECURSIVE go(_)
      go(f) == LET new == {k \in DOMAIN g : g[k] \notin DOMAIN f /\ \A i \in 1..Len(k[2]) : k[2][i] \in DOMAIN f}
               IN IF new = {} THEN f
                  ELSE go(f @@ [c \in {g[k] : k \in new} |->
                            LET k == CHOOSE k \in new : g[k] = c
                            IN <<k[1]>> \o [i \in 1..Len(k[2]) |-> f[k[2][i]]]])
  IN go(<<>>)
MergedPairs(g, h) == LET tm == TermOf(g)
                         at == TLCEval([c \in Classes(g) |-> Lookup(h, tm[c])])
                     IN {p \in Classes(g) \X Classes(g) : p[1] < p[2] /\ at[p[1]] = at[p[2]]}
Compress(D, g, rules, k) == LET r == Rounds(D, g, rules, k)
                            IN [g |-> Close(g, MergedPairs(g, r.g)), corner |-> r.corner]

RunSched(D, s, g, rules, k) ==
  CASE s = "simple" -> Simple(D, g, rules, k)
    [] s = "sat" -> Saturating(D, g, rules, k)
    [] s = "compress" -> Compress(D, g, rules, k)

\* derivability of a rule under the saturating schedule
Derive(rules, rule, both, k) ==
  LET l == Inst(rule[1])  r == Inst(rule[2])
      g0 == AddTerms(Empty, IF both THEN <<l, r>> ELSE <<l>>)
      g1 == Saturating(NoData, g0, rules, k).g
      b == Lookup(g1, r)
  IN b # NONE /\ b = Lookup(g1, l)

-----------------------------------------------------------------------------
(* Equality of e-graphs up to the names of the classes: f maps classes of  *)
(* g to classes of h, built from the leaves up.                            *)
RECURSIVE IsoGrow(_, _, _)
IsoGrow(g, h, f) ==
  LET ready == {k \in DOMAIN g : g[k] \notin DOMAIN f /\ \A i \in 1..Len(k[2]) : k[2][i] \in DOMAIN f}
      img(k) == <<k[1], [i \in 1..Len(k[2]) |-> f[k[2][i]]]>>
      hit == {k \in ready : img(k) \in DOMAIN h}
  IN IF hit = {} THEN f
     ELSE IsoGrow(g, h, f @@ [c \in {g[k] : k \in hit} |-> h[img(CHOOSE k \in hit : g[k] = c)]])
Iso(g, h) ==
  /\ NumNodes(g) = NumNodes(h)
  /\ LET f == IsoGrow(g, h, <<>>) IN
     /\ DOMAIN f = Classes(g)
     /\ Cardinality(Rng(f)) = NumClasses(g)
     /\ NumClasses(g) = NumClasses(h)
     /\ \A k \in DOMAIN g : LET m == <<k[1], [i \in 1..Len(k[2]) |-> f[k[2][i]]]>>
                            IN m \in DOMAIN h /\ h[m] = f[g[k]]
\* everything g says (terms, equalities) is also said by h
Embeds(g, h) ==
  LET f == IsoGrow(g, h, <<>>) IN
  /\ DOMAIN f = Classes(g)
  /\ \A k \in DOMAIN g : LET m == <<k[1], [i \in 1..Len(k[2]) |-> f[k[2][i]]]>>
                         IN m \in DOMAIN h /\ h[m] = f[g[k]]
\* equalities of g between its classes that are represented in h also hold in h:
\* (used for runs that were cut short, which are subsets of the full run)

-----------------------------------------------------------------------------
(* Recorded e-graphs: a sequence of classes [id, n, cv, lo, hi, s].        *)
DNodes(d) == UNION {{<<d[i].n[j], d[i].id>> : j \in 1..Len(d[i].n)} : i \in 1..Len(d)}
FromDump(d) == [k \in {n[1] : n \in DNodes(d)} |-> (CHOOSE n \in DNodes(d) : n[1] = k)[2]]
\* the record is an e-graph: no node in two classes, no dangling child, ids distinct
WellFormed(d) ==
  LET N == DNodes(d) ids == {d[i].id : i \in 1..Len(d)} IN
  /\ Cardinality({n[1] : n \in N}) = Cardinality(N)
  /\ Cardinality(ids) = Len(d)
  /\ \A n \in N : \A i \in 1..Len(n[1][2]) : n[1][2][i] \in ids
DumpCv(d) == [c \in {d[i].id : i \in 1..Len(d)} |-> (CHOOSE i \in 1..Len(d) : d[i].id = c)]
=============================================================================
