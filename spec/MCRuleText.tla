---------------------------- MODULE MCRuleText -----------------------------
(* Every rule over a pool of small terms, written in every way, read back, *)
(* held in rulesets, written to files and printed.  The theorems relate    *)
(* the reader over characters to the printer; the histories are replayed.  *)
EXTENDS Ruleset, SequencesExt, Json, IOUtils
LEVEL == atoi(IOEnv.LEVEL)
X == <<"?x">>  Y == <<"?y">>  K == <<"k">>
P1 == << X, K, <<"g", X>>, <<"<=", X, Y>>, <<"=", X, K>>, <<"f", X, <<"g", Y>>>> >>
P2 == << <<"-1">>, <<">=", Y, X>>, <<"->", <<"g", X>>, X>>, <<"t", X, Y, K>>, <<"<", X, X>>, <<"==", Y, X>>,
         <<"if", <<">", X, K>>, X, Y>>, <<"g", <<"g", <<"g", X>>>>>> >>
Pool == IF LEVEL = 1 THEN P1 ELSE P1 \o P2
VARIABLES a, b
Init == a \in 1..Len(Pool) /\ b \in 1..Len(Pool) /\ a # b
        /\ VarsOf(Pool[b]) \subseteq VarsOf(Pool[a])
Next == FALSE /\ UNCHANGED <<a, b>>
L == Pool[a]
R == Pool[b]
Two == VarsOf(L) = VarsOf(R)
Gaps == {" ", "  "}
Text(u, g1, arr, g2, v) == Show(u) \o g1 \o arr \o g2 \o Show(v)
Ways == {<<g1, ar, g2>> : g1 \in Gaps, ar \in {"=>", "==>"} \cup (IF Two THEN {"<=>"} ELSE {}), g2 \in Gaps}
ReadsRight ==
  \A w \in Ways :
    LET t == TextRules(Text(L, w[1], w[2], w[3], R)) IN
      /\ t[1] = <<L, R>>
      /\ Len(t) = (IF w[2] = "<=>" THEN 2 ELSE 1)
      /\ Len(t) = 2 => t[2] = Flip(t[1])
RoundTrip == /\ TextRules(RuleText(<<L, R>>)) = << <<L, R>> >>
             /\ Read(Show(L)) = <<L>>
Injective == \A i, j \in 1..Len(Pool) : i # j => Show(Pool[i]) # Show(Pool[j])
\* a listing of a pair of opposite rules is one two-way line and nothing else
Lists == LET s == IF Two THEN << <<L, R>>, <<R, L>> >> ELSE << <<L, R>> >> IN
           /\ IsListing(<<Text(L, " ", IF Two THEN "<=>" ELSE "==>", " ", R)>>, s)
           /\ Two => IsListing(<<Text(R, " ", "<=>", " ", L)>>, s) /\ ~IsListing(<<RuleText(s[1]), RuleText(s[2])>>, s)
           /\ ~IsListing(<<>>, s)
           /\ (\A i \in {1} : ~IsListing(<<RuleText(s[1]), RuleText(s[1])>>, s))
WaySeq == SetToSeq(Ways)
Beh == [i \in 1..Len(WaySeq) |-> [op |-> "parse", text |-> Text(L, WaySeq[i][1], WaySeq[i][2], WaySeq[i][3], R)]] \o
       << [op |-> "new", d |-> 1, texts |-> <<Text(L, " ", "=>", " ", R), Text(L, " ", IF Two THEN "<=>" ELSE "==>", "  ", R)>>],
          [op |-> "file", d |-> 2, a |-> 1], [op |-> "eq", a |-> 1, b |-> 2], [op |-> "show", a |-> 1],
          [op |-> "size", a |-> 2, rules |-> << <<L, R>> >>],
          [op |-> "load", d |-> 3, texts |-> <<"hello", Text(L, " ", "==>", " ", R), "">>],
          [op |-> "remove", d |-> 2, b |-> 3], [op |-> "show", a |-> 2], [op |-> "file", d |-> 4, a |-> 2, over |-> 1],
          [op |-> "union", d |-> 4, a |-> 2, b |-> 1], [op |-> "show", a |-> 4], [op |-> "eq", a |-> 1, b |-> 4] >>
Emit == PrintT(ToJson(Beh))
=============================================================================
