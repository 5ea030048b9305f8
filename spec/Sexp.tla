------------------------------- MODULE Sexp -------------------------------
(* S-expressions, patterns over them, metrics, canonical forms and text.   *)
(* An atom x is <<"x">>; a list of k1..kn is <<"(", k1, .., kn>>.          *)
(* A pattern is <<"*">> | <<"?", name>> | <<"=", atom>> | <<"(", ps...>>.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Atom(x)    == <<x>>
MkList(ts) == <<"(">> \o ts
IsList(t)  == t[1] = "("
Kids(t)    == Tail(t)
NKids(t)   == Len(t) - 1

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, s)

-----------------------------------------------------------------------------
(* Metrics: number of atoms, number of lists, depth. *)
RECURSIVE Measure(_, _)
Measure(t, m) ==
  IF ~IsList(t) THEN (IF m = "Lists" THEN 0 ELSE 1)
  ELSE LET ms == TLCEval([i \in 1..NKids(t) |-> Measure(t[i+1], m)])
       IN  CASE m = "Atoms" -> SumSeq(ms)
             [] m = "Lists" -> SumSeq(ms) + 1
             [] m = "Depth" -> MaxSeq(ms) + 1

RECURSIVE AtomsOf(_)
AtomsOf(t) == IF ~IsList(t) THEN {t[1]}
              ELSE UNION {AtomsOf(t[i]) : i \in 2..Len(t)}

RECURSIVE Subterms(_)
Subterms(t) == {t} \cup (IF IsList(t) THEN UNION {Subterms(t[i]) : i \in 2..Len(t)} ELSE {})

\* number of occurrences of atom n
RECURSIVE Occ(_, _)
Occ(t, n) == IF ~IsList(t) THEN (IF t[1] = n THEN 1 ELSE 0)
             ELSE SumSeq([i \in 1..NKids(t) |-> Occ(t[i+1], n)])

-----------------------------------------------------------------------------
(* Cartesian product of a sequence of sequences, last component fastest. *)
CrossStep(acc, s) ==
  [k \in 1..(Len(acc) * Len(s)) |->
     Append(acc[((k-1) \div Len(s)) + 1], s[((k-1) % Len(s)) + 1])]
Cross(ss) == FoldLeft(CrossStep, << <<>> >>, ss)

(* Plug: every occurrence of atom n independently replaced by every peg. *)
RECURSIVE Plug(_, _, _)
Plug(t, n, pegs) ==
  IF ~IsList(t) THEN (IF t[1] = n THEN pegs ELSE <<t>>)
  ELSE LET prods == Cross([i \in 1..NKids(t) |-> Plug(t[i+1], n, pegs)])
       IN  [i \in 1..Len(prods) |-> MkList(prods[i])]

(* Uniform replacement of atom n by one term. *)
RECURSIVE Replace(_, _, _)
Replace(t, n, s) ==
  IF ~IsList(t) THEN (IF t[1] = n THEN s ELSE t)
  ELSE MkList([i \in 1..NKids(t) |-> Replace(t[i+1], n, s)])

-----------------------------------------------------------------------------
(* Canonical renaming: symbols replaced, in order of first occurrence,     *)
(* by the given symbols in order.                                          *)
RECURSIVE Leaves(_)
Leaves(t) == IF ~IsList(t) THEN <<t[1]>>
             ELSE FoldLeft(LAMBDA a, k : a \o Leaves(k), <<>>, Kids(t))

FirstOccurrences(t, syms) ==
  FoldLeft(LAMBDA a, x : IF x \in syms /\ x \notin {a[i] : i \in 1..Len(a)}
                         THEN Append(a, x) ELSE a, <<>>, Leaves(t))

RECURSIVE Rename(_, _)
Rename(t, f) == IF ~IsList(t) THEN (IF t[1] \in DOMAIN f THEN <<f[t[1]]>> ELSE t)
                ELSE MkList([i \in 1..NKids(t) |-> Rename(t[i+1], f)])

CanonOf(t, symseq) ==
  LET occ == FirstOccurrences(t, {symseq[i] : i \in 1..Len(symseq)})
      idx(x) == CHOOSE i \in 1..Len(occ) : occ[i] = x
  IN  Rename(t, [x \in {occ[i] : i \in 1..Len(occ)} |-> symseq[idx(x)]])

IsCanon(t, symseq) ==
  LET occ == FirstOccurrences(t, {symseq[i] : i \in 1..Len(symseq)})
  IN  \A i \in 1..Len(occ) : occ[i] = symseq[i]

-----------------------------------------------------------------------------
(* Pattern matching; a substitution is a function name -> term, NoMatch    *)
(* is the failure value.                                                   *)
NoMatch == [ok |-> FALSE, s |-> <<>>]
RECURSIVE MatchIn(_, _, _)
MatchIn(p, t, m) ==
  IF ~m.ok THEN m
  ELSE CASE p[1] = "*" -> m
         [] p[1] = "?" -> IF p[2] \in DOMAIN m.s
                          THEN (IF m.s[p[2]] = t THEN m ELSE NoMatch)
                          ELSE [ok |-> TRUE, s |-> (p[2] :> t) @@ m.s]
         [] p[1] = "=" -> IF t = <<p[2]>> THEN m ELSE NoMatch
         [] p[1] = "(" -> IF IsList(t) /\ Len(t) = Len(p)
                          THEN FoldLeft(LAMBDA a, i : MatchIn(p[i], t[i], a), m,
                                        [i \in 1..(Len(p)-1) |-> i + 1])
                          ELSE NoMatch
Matches(p, t) == MatchIn(p, t, [ok |-> TRUE, s |-> <<>>]).ok

-----------------------------------------------------------------------------
(* Text: a term's text is a sequence of one-character strings.             *)
Blank(c) == c = " " \/ c = "\n"
ParseStep(st, c) ==
  LET push(s, t) == [s EXCEPT ![Len(s)] = Append(@, t)]
      flush == IF st.cur = "" THEN st.stack ELSE push(st.stack, <<st.cur>>)
  IN CASE c = "(" -> [stack |-> Append(flush, <<>>), cur |-> ""]
       [] c = ")" -> [stack |-> LET d == Len(flush) IN
                                IF d = 1 THEN flush
                                ELSE push(SubSeq(flush, 1, d-1), MkList(flush[d])), cur |-> ""]
       [] Blank(c) -> [stack |-> flush, cur |-> ""]
       [] OTHER -> [st EXCEPT !.cur = @ \o c]
\* all terms written in a text
ParseAll(cs) ==
  LET fin == FoldLeft(ParseStep, [stack |-> << <<>> >>, cur |-> ""], Append(cs, " "))
  IN  fin.stack[1]
ParseTerm(cs) == ParseAll(cs)[1]

-----------------------------------------------------------------------------
(* Sequences as bags. *)
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameCounts(s, t) == \A x \in {s[i] : i \in 1..Len(s)} : CountIn(s, x) = CountIn(t, x)
SameBag(s, t) ==
  \/ s = t
  \/ /\ Len(s) = Len(t)
     /\ LET S == {s[i] : i \in 1..Len(s)}  T == {t[i] : i \in 1..Len(t)} IN
        S = T /\ (Cardinality(S) = Len(s) \/ SameCounts(s, t))
SeqSet(s) == {s[i] : i \in 1..Len(s)}
NoDup(s)  == Cardinality(SeqSet(s)) = Len(s)
=============================================================================
