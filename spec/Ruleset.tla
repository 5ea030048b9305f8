------------------------------ MODULE Ruleset ------------------------------
(* Rulesets: insertion-ordered sets of distinct rules in registers 1..4.   *)
(* A rule is <<lhs, rhs>>; terms are <<op, kid..>>; texts are strings.     *)
EXTENDS EGraph

RECURSIVE Show(_)
Show(t) == IF Len(t) = 1 THEN t[1]
           ELSE "(" \o t[1] \o FoldLeft(LAMBDA a, i : a \o " " \o Show(t[i]), "", Idx(t)) \o ")"
RuleText(r) == Show(r[1]) \o " ==> " \o Show(r[2])
Flip(r) == <<r[2], r[1]>>
Bound(r) == VarsOf(r[2]) \subseteq VarsOf(r[1])

\* reading a rule text: the terms written in it, one after the other
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
ReadStep(st, c) ==
  LET push(s, t) == [s EXCEPT ![Len(s)] = Append(@, t)]
      flush == IF st.cur = "" THEN st.stack ELSE push(st.stack, <<st.cur>>)
  IN CASE c = "(" -> [stack |-> Append(flush, <<>>), cur |-> ""]
       [] c = ")" -> [stack |-> LET d == Len(flush) IN
                                IF d = 1 THEN flush
                                ELSE push(SubSeq(flush, 1, d-1), <<flush[d][1][1]>> \o Tail(flush[d])), cur |-> ""]
       [] c = " " -> [stack |-> flush, cur |-> ""]
       [] OTHER -> [st EXCEPT !.cur = @ \o c]
Read(s) == FoldLeft(ReadStep, [stack |-> << <<>> >>, cur |-> ""], Append(Chars(s), " ")).stack[1]
Arrows == {<<"=>">>, <<"==>">>, <<"<=>">>}
\* the rules a text states, in order
TextRules(s) == LET p == Read(s) IN
  IF Len(p) # 3 \/ p[2] \notin Arrows THEN <<>>
  ELSE IF p[2] = <<"<=>">> THEN << <<p[1], p[3]>>, <<p[3], p[1]>> >>
  ELSE << <<p[1], p[3]>> >>

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Insert(s, r) == IF r \in SeqSet(s) THEN s ELSE Append(s, r)
InsertAll(s, rs) == FoldLeft(Insert, s, rs)
FromTexts(ts) == FoldLeft(LAMBDA a, t : InsertAll(a, TextRules(t)), <<>>, ts)

RECURSIVE HasLeaf(_, _)
HasLeaf(t, x) == t[1] = x \/ \E i \in 2..Len(t) : HasLeaf(t[i], x)
Satisfies(s, r) ==
  CASE s.p = "all" -> TRUE
    [] s.p = "none" -> FALSE
    [] s.p = "lsize" -> Size(r[1]) <= s.n
    [] s.p = "shrink" -> Size(r[2]) < Size(r[1])
    [] s.p = "in" -> r \in SeqSet(s.rules)
    [] OTHER -> HasLeaf(r[1], s.x) \/ HasLeaf(r[2], s.x)
\* rules plus one per pair of opposite rules
PairCount(s) == LET R == SeqSet(s)
                    two == {r \in R : Flip(r) \in R}
                IN Cardinality(R \ two) + Cardinality(two) \div 2

\* A printed listing: one line per rule, opposite rules together on one line.
Listing(s) == [i \in 1..Len(s) |-> TextRules(s[i])]
IsListing(lines, s) ==
  LET ls == Listing(lines)
  IN /\ Len(ls) = PairCount(s)
     /\ \A i \in 1..Len(ls) : ls[i] # <<>> /\ ls[i][1] \in SeqSet(s)
     /\ UNION {SeqSet(ls[i]) : i \in 1..Len(ls)} = SeqSet(s)
     /\ \A i, j \in 1..Len(ls) : i < j => SeqSet(ls[i]) \cap SeqSet(ls[j]) = {}

(* Effect of a call on the registers g (a sequence of rule sequences).     *)
Effect(s, g) ==
  CASE s.op \in {"new", "load"} -> [g EXCEPT ![s.d] = FromTexts(s.texts)]
    [] s.op = "file" -> [g EXCEPT ![s.d] = g[s.a]]
    [] s.op = "add" -> [g EXCEPT ![s.d] = Insert(@, s.rule)]
    [] s.op = "union" -> [g EXCEPT ![s.d] = InsertAll(g[s.a], g[s.b])]
    [] s.op \in {"extend", "addall"} -> [g EXCEPT ![s.d] = InsertAll(@, g[s.b])]
    [] s.op = "remove" -> [g EXCEPT ![s.d] = SelectSeq(@, LAMBDA r : r \notin SeqSet(g[s.b]))]
    [] s.op = "part" -> [g EXCEPT ![s.y] = SelectSeq(g[s.a], LAMBDA r : Satisfies(s, r)),
                                  ![s.n_] = SelectSeq(g[s.a], LAMBDA r : ~Satisfies(s, r))]
    [] OTHER -> g
\* a removal may reorder what is left
Allowed(s, g, h) ==
  IF s.op = "remove"
  THEN /\ \A i \in 1..4 : i # s.d => h[i] = g[i]
       /\ SeqSet(h[s.d]) = SeqSet(Effect(s, g)[s.d]) /\ Len(h[s.d]) = Len(Effect(s, g)[s.d])
  ELSE h = Effect(s, g)
=============================================================================
