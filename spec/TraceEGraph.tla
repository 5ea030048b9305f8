---------------------------- MODULE TraceEGraph ----------------------------
(* Recorded e-graph histories checked step by step against EGraph.  The    *)
(* state adopts each recorded e-graph, so a step is judged relative to the *)
(* real state before it.  PROP selects the property that is judged.        *)
EXTENDS Synth, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
VARIABLES h, l, regs, base, ok, inc
vars == <<h, l, regs, base, ok, inc>>

Init == /\ h \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ inc = 0
        /\ regs = [r \in 1..4 |-> <<>>]
        /\ base = [r \in 1..4 |-> <<>>]
H == Traces[h]
Steps == H.steps
S == Steps[l].in
O == Steps[l].out
Lang == H.lang
G(r) == FromDump(regs[r])
Has(f, k) == k \in DOMAIN f

\* sampled vectors: the rows recorded for the variables of register r
DataFrom(b) ==
  IF b = <<>> THEN NoData
  ELSE [lang |-> Lang, len |-> Len(b[CHOOSE v \in DOMAIN b : TRUE]), base |-> b]
DataOf(r) == DataFrom(base[r])
\* no variables: one row, which assigns nothing (no leaf has the empty name)
Ground == [v \in {""} |-> <<0>>]
\* the recorded vector of a leaf
LeafCv(d, v) == d[CHOOSE i \in 1..Len(d) : \E j \in 1..Len(d[i].n) : d[i].n[j] = <<v, <<>>>>].cv

Ok == ok' = TRUE /\ inc' = inc
Note == PrintT(<<"UNDECIDED", h, l>>)
Corner == ok' = TRUE /\ inc' = inc + 1 /\ Note
Verdict(c, b) == IF c THEN Corner ELSE ok' = b /\ inc' = inc

UList == IF Has(S, "unions") THEN S.unions ELSE <<>>
VarSeq == IF Has(S, "vars") THEN S.vars ELSE <<>>
BuildSpec ==
  LET g0 == AddTerms(Empty, [i \in 1..Len(VarSeq) |-> <<VarSeq[i]>>] \o S.terms)
      r == FoldLeft(LAMBDA acc, u : LET a == AddTerm(acc.g, u[1])  b == AddTerm(a.g, u[2])
                                    IN [g |-> b.g, P |-> acc.P \cup {<<a.c, b.c>>}],
                    [g |-> g0, P |-> {}], UList)
  IN Close(r.g, r.P)
BuildBase == IF Has(S, "vars") /\ VarSeq = <<>> THEN Ground ELSE [v \in ToSet(VarSeq) |-> LeafCv(O.g, v)]
Adopt(d, b) == /\ regs' = [regs EXCEPT ![d] = O.g]
               /\ base' = [base EXCEPT ![d] = b]
Build == /\ S.op = "build" /\ O.r = "ok"
         /\ Adopt(S.d, BuildBase)
         /\ Verdict(FALSE,
              CASE PROP = "C13" -> WellFormed(O.g) /\ Iso(BuildSpec, FromDump(O.g))
                [] PROP = "C20" -> WellFormed(O.g) /\
                     DataOk([DataFrom(BuildBase) EXCEPT !.lang = Lang], O.g)
                [] OTHER -> TRUE)

Add == /\ S.op \in {"add", "union"} /\ O.r = "ok"
       /\ Adopt(S.d, base[S.d])
       /\ LET g == G(S.d)
              x == IF S.op = "add" THEN AddTerm(g, S.a).g ELSE UnionTerms(g, S.a, S.b)
              D == [DataOf(S.d) EXCEPT !.lang = Lang]
          IN Verdict(FALSE,
               CASE PROP = "C20" -> /\ WellFormed(O.g) /\ DataOk(D, O.g)
                                    /\ SimplestShrinks(regs[S.d], O.g)
                 [] PROP = "C13" -> WellFormed(O.g) /\ Iso(x, FromDump(O.g))
                 [] OTHER -> TRUE)
Budget == IF Has(S, "node") THEN S.node ELSE 1000000
MLimit == IF Has(S, "match") THEN S.match ELSE 1000000

(* Limits.  The prefixes of a run: i full rounds and the first j rules of  *)
(* the next.                                                               *)
RECURSIVE RunPrefixes(_, _, _, _)
RunPrefixes(D, g, rules, k) ==
  IF k = 0 THEN <<g>>
  ELSE LET part == [j \in 1..Len(rules) |-> Round(D, g, SubSeq(rules, 1, j - 1)).g]
           nx == Round(D, g, rules).g
       IN IF nx = g THEN <<g>> ELSE part \o RunPrefixes(D, nx, rules, k - 1)
After(s, g, x) == IF s = "compress" THEN Close(g, MergedPairs(g, x)) ELSE x
BudgetOk(D, g, o) ==
  LET ps == RunPrefixes(D, g, S.rules, S.it)
      cut == \E i \in 1..Len(ps) : /\ \A j \in 1..(i-1) : NumNodes(ps[j]) <= Budget
                                   /\ Iso(After(S.s, g, ps[i]), o)
  IN CASE S.it = 0 \/ O.size0 > Budget -> Iso(g, o)
       [] S.s = "simple" /\ O.size1 <= Budget -> Iso(ps[Len(ps)], o)
       [] OTHER -> cut
RECURSIVE PickN(_, _)
PickN(M, n) == {X \in SUBSET M : Cardinality(X) = n}
\* rounds in which no rule has more than m matches
RECURSIVE NeverOver(_, _, _, _, _)
NeverOver(D, g, rules, k, m) ==
  k = 0 \/ /\ \A r \in 1..Len(rules) : Cardinality(EMatches(g, rules[r][1])) <= m
           /\ LET n == Round(D, g, rules).g IN n = g \/ NeverOver(D, n, rules, k - 1, m)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n-1, k-1) + Binom(n-1, k)
\* all ways to take m matches of each rule that has more
RECURSIVE Combos(_, _, _)
Combos(per, R, m) ==
  IF R = {} THEN {{}}
  ELSE LET r == CHOOSE r \in R : TRUE IN
       {X \cup Y : X \in PickN(per[r], m), Y \in Combos(per, R \ {r}, m)}
RECURSIVE MReach(_, _, _, _, _, _)
MReach(D, g, rules, k, m, o) ==
  IF k = 0 THEN Iso(g, o)
  ELSE LET per == [r \in 1..Len(rules) |-> MatchesOf(g, <<rules[r]>>)]
           over == {r \in 1..Len(rules) : Cardinality(per[r]) > m}
           rest == UNION {per[r] : r \in (1..Len(rules)) \ over}
           ways == FoldLeft(LAMBDA a, r : IF a = 0 \/ r \notin over THEN a
                                          ELSE IF Cardinality(per[r]) > 12 \/ a * Binom(Cardinality(per[r]), m) > 100 THEN 0
                                          ELSE a * Binom(Cardinality(per[r]), m),
                            1, [i \in 1..Len(rules) |-> i])
       IN \/ ways = 0                               \* too many ways to follow
          \/ \E X \in Combos(per, over, m) :
               LET n == ApplyM(D, g, CvOf(D, g), rest \cup X).g IN
               IF n = g THEN Iso(g, o) ELSE Embeds(n, o) /\ MReach(D, n, rules, k - 1, m, o)
MatchesOk(D, g, o) ==
  LET full == Rounds(D, g, S.rules, S.it).g
      per == [r \in 1..Len(S.rules) |-> MatchesOf(g, <<S.rules[r]>>)]
      over == {r \in 1..Len(S.rules) : Cardinality(per[r]) > MLimit}
      rest == UNION {per[r] : r \in (1..Len(S.rules)) \ over}
  IN /\ Embeds(g, o) /\ Embeds(o, full)
     /\ NeverOver(D, g, S.rules, S.it, MLimit) => Iso(full, o)
     /\ (S.it = 1 /\ Cardinality(over) = 1) =>
          LET r == CHOOSE r \in over : TRUE IN
          (Cardinality(per[r]) <= 12 /\ Binom(Cardinality(per[r]), MLimit) <= 300) =>
             \E X \in PickN(per[r], MLimit) : Iso(ApplyM(D, g, CvOf(D, g), rest \cup X).g, o)
     /\ MReach(D, g, S.rules, S.it, MLimit, o)

Run == /\ S.op = "run" /\ O.r = "ok"
       /\ Adopt(S.d, base[S.g])
       /\ LET g == G(S.g)  o == FromDump(O.g)  D == DataOf(S.g)
              r == RunSched(D, S.s, g, S.rules, S.it)
              e == WellFormed(O.g) /\ O.same /\ Iso(r.g, o)
          IN CASE PROP = "C13" -> Verdict(r.corner, S.s = "simple" => e)
               [] PROP = "C14" -> Verdict(r.corner, S.s = "sat" =>
                     LET sat == SelectSeq(S.rules, LAMBDA q : SatRule(q)) IN
                     /\ Round(D, o, sat).g = o
                     \* a node budget is no limit for the saturating rules
                     /\ IF Has(S, "node") /\ sat # S.rules THEN Embeds(g, o) /\ Embeds(o, r.g) ELSE e)
               [] PROP = "C15" -> Verdict(r.corner, S.s = "compress" =>
                     e /\ NumClasses(o) <= NumClasses(g) /\ NumNodes(o) <= NumNodes(g))
               [] PROP = "C19" -> Verdict(r.corner, e)
               [] PROP = "C16" -> Verdict(FALSE, WellFormed(O.g) /\ O.same /\
                     (IF Has(S, "match") THEN MatchesOk(D, g, o) ELSE BudgetOk(D, g, o)))
               [] PROP = "C20" -> Verdict(FALSE,
                     WellFormed(O.g) /\ DataOk([D EXCEPT !.lang = Lang], O.g) /\ SimplestShrinks(regs[S.g], O.g))
               [] PROP = "C28" -> Verdict(FALSE,
                     (\A i \in 1..Len(S.rules) : SatRule(S.rules[i])) => NumClasses(o) <= NumClasses(g))
               [] OTHER -> Ok
Mat == /\ S.op = "mat" /\ O.r = "ok"
       /\ Adopt(S.d, <<>>)
       /\ Verdict(FALSE, PROP = "C26" => MatOk(Lang, S.ts, O.g, O.len))
Query == /\ S.op \in {"xc", "cm", "fm", "issat", "allowed", "der", "split", "min", "val", "score", "gen"}
         /\ O.r = "ok"
         /\ UNCHANGED <<regs, base>>
         /\ Verdict(FALSE,
              CASE S.op = "xc" -> ExtractOk(Lang, regs[S.a], regs[S.b], O.rules)
                [] S.op = "cm" -> PROP = "C10" => ExactMatchOk(Lang, regs[S.g], O.rules)
                [] S.op = "fm" -> /\ FastMatchOk(Lang, regs[S.g], O.rules)
                                  /\ (l > 1 /\ Steps[l-1].in.op = "cm" /\ Steps[l-1].in.g = S.g) =>
                                       {O.rules[i] : i \in 1..Len(O.rules)} \subseteq
                                       {Steps[l-1].out.rules[i] : i \in 1..Len(Steps[l-1].out.rules)}
                [] S.op = "issat" -> O.b = SatRule(S.rule)
                [] S.op = "allowed" -> O.b = IsAllowedRule(Lang, S.rule)
                [] S.op = "der" -> O.b = Derive(S.rules, S.rule, S.ty # "lhs", S.it)
                [] S.op = "split" ->
                     LET v == [i \in 1..Len(S.against) |-> Derive(S.rules, S.against[i], S.ty # "lhs", S.it)]
                         pick(b) == {S.against[i] : i \in {i \in 1..Len(S.against) : v[i] = b}}
                     IN /\ O.rules = S.rules /\ O.ag = S.against /\ O.one = v
                        /\ {O.can[i] : i \in 1..Len(O.can)} = pick(TRUE)
                        /\ {O.cannot[i] : i \in 1..Len(O.cannot)} = pick(FALSE)
                        /\ Len(O.can) + Len(O.cannot) = Len(S.against)
                [] S.op = "min" -> MinimizeOk(Lang, S.s, S.it, S.cands, S.prior, O.chosen, O.invalid)
                [] S.op = "val" ->
                     LET b == ValidRule(Lang, S.rule[1], S.rule[2]) IN
                     /\ (O.v = "Valid" => b) /\ (O.v = "Invalid" => ~b)
                     /\ O.is = <<>> \/ O.is = <<O.v = "Valid">>
                [] S.op = "score" -> O.c = CmpScore(S.a, S.b)
                [] S.op = "gen" -> GenOk(Lang, S.a, S.b, O.p, O.q, O.ip, O.iq))
\* recipes: outcome "?" counts as inconclusive
Judge(x) == /\ ok' = (x # "bad")
            /\ IF x = "?" THEN inc' = inc + 1 /\ Note ELSE inc' = inc
KnownRec == l > 1 /\ Steps[l-1].in.op = "rec" /\ Steps[l-1].out.r = "ok" /\ S.n = Steps[l-1].in.n + 1
PrevRec == IF KnownRec THEN Steps[l-1].out.rules ELSE <<>>
Recipe == /\ S.op \in {"synth", "ff", "rec"} /\ O.r = "ok"
          /\ UNCHANGED <<regs, base>>
          /\ Judge(CASE S.op = "synth" -> SynthRes(Lang, S.ts, S.prior, O.rules, S.pit, S.k)
                     [] S.op = "ff" -> FFRes(Lang, S.ts, S.prior, O.expl, O.rules, S.pit, S.k)
                     [] S.op = "rec" -> RecRes(Lang, S.m, S.n, ToSet(S.vars), ToSet(S.vals), S.ops, S.prior,
                                               KnownRec, PrevRec, O.rules, S.k))
\* inference may give up only if there is nothing to learn; recursive
\* inference never gives up below size three
GaveUp == /\ S.op \in {"synth", "rec"} /\ O.r = "panic" /\ O.msg = "Didn't learn any rules!"
GiveUp == /\ GaveUp
          /\ UNCHANGED <<regs, base>>
          /\ Judge(CASE S.op = "synth" -> NothingRes(Lang, S.ts, S.prior, S.pit, S.k)
                     [] S.n < 3 -> "bad"
                     [] ~KnownRec -> "?"
                     [] OTHER -> RecNothing(Lang, S.m, S.n, ToSet(S.vars), ToSet(S.vals), S.ops, PrevRec, S.k))
Other == /\ O.r = "skip"
         /\ Ok /\ UNCHANGED <<regs, base>>
\* a panic, hang or crash is a result no action allows
Bad == /\ O.r \in {"panic", "hang", "crash"}
       /\ ~GaveUp
       /\ ok' = FALSE /\ inc' = inc /\ UNCHANGED <<regs, base>>

Next == /\ ok /\ l <= Len(Steps)
        /\ Build \/ Add \/ Run \/ Mat \/ Query \/ Recipe \/ GiveUp \/ Other \/ Bad
        /\ l' = l + 1 /\ h' = h
Conforms == ok
=============================================================================
