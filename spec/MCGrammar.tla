----------------------------- MODULE MCGrammar ------------------------------
(* Iterating a grammar as designed: start from the grammar itself, then    *)
(* replug and cut by the metric, one bound at a time.  For every grammar   *)
(* over the pool, metric and bound: what is kept has no holes and is exactly *)
(* what the grammar derives, by counting derivations of each term of the   *)
(* universe.  Each case is replayed, for the bounds one after the other.   *)
EXTENDS Workload, Json, IOUtils
LEVEL == atoi(IOEnv.LEVEL)
X == <<"X">>
Pool == << <<"a">>, <<"b">>, MkList(<<<<"f">>, X>>), MkList(<<<<"g">>, X, X>>), MkList(<<X, X>>),
           MkList(<<<<"f">>, <<"a">>>>), MkList(<<<<"f">>, MkList(<<<<"f">>, X>>)>>), MkList(<<<<"g">>, <<"b">>, X>>) >>
Grammars == UNION {{s \in [1..n -> SeqSet(Pool)] : \A i, j \in 1..n : i < j => s[i] # s[j]} : n \in 1..(LEVEL + 1)}
\* one order of each set of productions
Ordered2(s) == \A i \in 1..(Len(s)-1) : (CHOOSE k \in 1..Len(Pool) : Pool[k] = s[i]) < (CHOOSE k \in 1..Len(Pool) : Pool[k] = s[i+1])
Bound == LEVEL + 2
VARIABLES gr, m, n, i, pegs
vars == <<gr, m, n, i, pegs>>
Init == /\ gr \in {s \in Grammars : Ordered2(s)} /\ m \in {"Atoms", "Lists", "Depth"}
        /\ n \in 1..(IF m = "Depth" THEN LEVEL + 1 ELSE Bound) /\ i = 1 /\ pegs = gr
Cut(ts, k) == DFilter(ts, [k |-> "lt", m |-> m, n |-> k + 1])
Next == /\ i <= n /\ i' = i + 1 /\ UNCHANGED <<gr, m, n>>
        /\ pegs' = Cut(DPlug(gr, "X", pegs), i)
Result == pegs
(* number of derivations of term t from the hole *)
RECURSIVE Ways(_)
RECURSIVE Fits(_, _)
Ways(t) == SumSeq([p \in 1..Len(gr) |-> Fits(gr[p], t)])
Fits(p, t) ==
  IF p = X THEN Ways(t)
  ELSE IF ~IsList(p) THEN (IF p = t THEN 1 ELSE 0)
  ELSE IF ~IsList(t) \/ Len(t) # Len(p) THEN 0
  ELSE FoldLeft(LAMBDA a, k : a * Fits(p[k], t[k]), 1, [k \in 1..(Len(p)-1) |-> k + 1])
RECURSIVE Terms(_)
Terms(d) == IF d = 1 THEN {<<"a">>, <<"b">>} ELSE
  LET S == Terms(d-1) IN S \cup {MkList(<<<<"f">>, x>>) : x \in S} \cup {MkList(<<x, y>>) : x, y \in S}
                          \cup {MkList(<<<<"g">>, x, y>>) : x, y \in S}
Small == Terms(3)
Derived ==
  i = n + 1 =>
    /\ \A j \in 1..Len(Result) : Measure(Result[j], m) <= n /\ Occ(Result[j], "X") = 0 /\ Ways(Result[j]) = CountIn(Result, Result[j])
    /\ \A t \in Small : Measure(t, m) <= n => (Ways(t) > 0 <=> t \in SeqSet(Result))
    /\ SameBag(Result, DIter(gr, "X", m, n))
\* after bound k of the loop, the result is already right for k
Growing == i > 1 => SameBag(Result, DIter(gr, "X", m, i - 1))
Beh == << [op |-> "new", d |-> 1, ts |-> gr], [op |-> "iter", d |-> 2, w |-> 1, a |-> "X", m |-> m, n |-> n] >>
Emit == i = n + 1 => PrintT(ToJson(Beh))
=============================================================================
