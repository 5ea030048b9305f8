----------------------------- MODULE MCRuleset -----------------------------
(* Every short history of ruleset calls, on the implementation's design:   *)
(* a map from rule names to rules that keeps insertion order, in which a   *)
(* removal takes out one entry at a time.  The abstract registers follow   *)
(* Ruleset; Refines says that the design holds exactly those rules.        *)
EXTENDS Ruleset, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
F2(a, b) == <<"f", a, b>>
RX == <<"?x">>  RY == <<"?y">>
Pool == << <<F2(RX, RY), F2(RY, RX)>>,                    \* its own reverse up to names
           <<F2(RX, <<"k">>), <<"g", RX>>>>, <<<<"g", RX>>, F2(RX, <<"k">>)>>,   \* a pair
           <<F2(RX, RX), RX>> >>                          \* one direction only
\* design: registers of [k: name, v: rule] in order
VARIABLES imp, abs, hist
vars == <<imp, abs, hist>>
Key(r) == RuleText(r)
Has(m, k) == \E i \in 1..Len(m) : m[i].k = k
Ins(m, r) == IF Has(m, Key(r)) THEN [i \in 1..Len(m) |-> IF m[i].k = Key(r) THEN [m[i] EXCEPT !.v = r] ELSE m[i]]
             ELSE Append(m, [k |-> Key(r), v |-> r])
InsAll(m, n) == FoldLeft(LAMBDA a, e : Ins(a, e.v), m, n)
\* the entry with a key is replaced by the last one, or the later ones move up
SwapOut(m, k) == IF ~Has(m, k) THEN m
                 ELSE LET i == CHOOSE i \in 1..Len(m) : m[i].k = k  n == Len(m) IN
                      IF i = n THEN SubSeq(m, 1, n - 1)
                      ELSE [j \in 1..n - 1 |-> IF j = i THEN m[n] ELSE m[j]]
ShiftOut(m, k) == SelectSeq(m, LAMBDA e : e.k # k)
\* the calls
Sels == {[p |-> "shrink"], [p |-> "leaf", x |-> "k"]}
CallSet ==
  {[op |-> "add", d |-> d, rule |-> Pool[i]] : d \in 1..2, i \in 1..Len(Pool)}
  \cup {[op |-> "union", d |-> d, a |-> 1, b |-> 2] : d \in {1, 3}}
  \cup {[op |-> o, d |-> p[1], b |-> p[2]] : o \in {"extend", "remove"}, p \in {<<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<1, 1>>}}
  \cup {[op |-> "part", a |-> a, y |-> 2, n_ |-> 3, n |-> 0, spin |-> 0, x |-> "k", p |-> s.p] : a \in 1..2, s \in Sels}
View(m) == [i \in 1..Len(m) |-> m[i].v]
Step(s, g, out(_, _)) ==
  CASE s.op = "add" -> [g EXCEPT ![s.d] = Ins(@, s.rule)]
    [] s.op = "union" -> [g EXCEPT ![s.d] = InsAll(g[s.a], g[s.b])]
    [] s.op = "extend" -> [g EXCEPT ![s.d] = InsAll(@, g[s.b])]
    [] s.op = "remove" -> [g EXCEPT ![s.d] = FoldLeft(LAMBDA a, e : out(a, e.k), @, g[s.b])]
    [] s.op = "part" -> [g EXCEPT ![s.y] = SelectSeq(g[s.a], LAMBDA e : Satisfies(s, e.v)),
                                  ![s.n_] = SelectSeq(g[s.a], LAMBDA e : ~Satisfies(s, e.v))]
Prefix == << [op |-> "new", d |-> 1, texts |-> <<"(f ?x ?y) => (f ?y ?x)", "(f ?x k) <=> (g ?x)">>],
             [op |-> "new", d |-> 2, texts |-> <<"(g ?x) => (f ?x k)", "(f ?x ?x) => ?x">>] >>
Init == /\ hist = Prefix
        /\ abs = FoldLeft(LAMBDA g, s : Effect(s, g), <<<<>>, <<>>, <<>>, <<>>>>, Prefix)
        /\ imp = [i \in 1..4 |-> [j \in 1..Len(abs[i]) |-> [k |-> Key(abs[i][j]), v |-> abs[i][j]]]]
Next == /\ Len(hist) < Depth + 2
        /\ \E s \in CallSet :
             /\ imp' \in {Step(s, imp, SwapOut), Step(s, imp, ShiftOut)}
             /\ Allowed(s, abs, [i \in 1..4 |-> View(imp'[i])])     \* otherwise stuck, see CanAct
             /\ abs' = [i \in 1..4 |-> View(imp'[i])]
             /\ hist' = Append(hist, s)
\* both ways of removing are allowed by the specification, and no call is refused
CanAct == \A s \in CallSet : \A o \in {1, 2} :
            Allowed(s, abs, [i \in 1..4 |-> View((IF o = 1 THEN Step(s, imp, SwapOut) ELSE Step(s, imp, ShiftOut))[i])])
Distinct == \A i \in 1..4 : Cardinality(SeqSet(abs[i])) = Len(abs[i])
Named == \A i \in 1..4 : \A j \in 1..Len(imp[i]) : imp[i][j].k = Key(imp[i][j].v)
Pairs == \A i \in 1..4 : 2 * PairCount(abs[i]) >= Len(abs[i]) /\ PairCount(abs[i]) <= Len(abs[i])
\* texts read back
ReadBack == \A i \in 1..Len(Pool) : TextRules(RuleText(Pool[i])) = <<Pool[i]>>
Emit == Len(hist) = Depth + 2 =>
          PrintT(ToJson(hist \o << [op |-> "size", a |-> 1, rules |-> Pool], [op |-> "eq", a |-> 1, b |-> 3] >>))
View1 == <<hist, imp>>
=============================================================================
