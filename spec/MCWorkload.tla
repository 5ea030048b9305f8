---------------------------- MODULE MCWorkload ----------------------------
(* Exhaustive small histories of workload building.  `opt` is the lazy     *)
(* expression the implementation's design keeps, `den` the denotation;     *)
(* Faithful says the design's rewriting is never observable.               *)
(* With EMIT set, every history of length Depth is printed for replay.     *)
EXTENDS Workload, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
EMIT  == IOEnv.EMIT = "1"
VARIABLES opt, den, hist
vars == <<opt, den, hist>>

A(x) == Atom(x)
L(s) == MkList(s)
Bases == << << A("x") >>,
            << L(<<A("f"), A("x"), A("y")>>), A("x"), L(<<A("g"), A("b")>>) >>,
            << L(<<A("f"), A("x"), A("x")>>), L(<<>>), A("y"), A("x") >> >>
PegSets == << << >>,
              << A("a"), L(<<A("f"), A("b"), A("b")>>) >>,
              << A("x"), L(<<A("g"), A("y")>>) >> >>
P(p) == p
Filters ==
  << [k |-> "lt", m |-> "Atoms", n |-> 2], [k |-> "lt", m |-> "Atoms", n |-> 4],
     [k |-> "lt", m |-> "Depth", n |-> 2], [k |-> "lt", m |-> "Lists", n |-> 2],
     [k |-> "eq", m |-> "Atoms", n |-> 3], [k |-> "eq", m |-> "Lists", n |-> 1], [k |-> "eq", m |-> "Depth", n |-> 1],
     [k |-> "lt", m |-> "Depth", n |-> 3],
     [k |-> "excludes", p |-> <<"=", "a">>],
     [k |-> "excludes", p |-> <<"(", <<"=", "f">>, <<"?", "x">>, <<"?", "x">>>>],
     [k |-> "contains", p |-> <<"=", "a">>],
     [k |-> "contains", p |-> <<"(", <<"*">>, <<"?", "x">>, <<"?", "x">>>>],
     [k |-> "canon", s |-> <<"x", "y">>],
     [k |-> "and", fs |-> <<[k |-> "lt", m |-> "Atoms", n |-> 4], [k |-> "excludes", p |-> <<"=", "b">>]>>],
     [k |-> "or", fs |-> <<[k |-> "lt", m |-> "Atoms", n |-> 2], [k |-> "contains", p |-> <<"=", "b">>]>>],
     [k |-> "inv", f |-> [k |-> "lt", m |-> "Atoms", n |-> 3]] >>

Init == /\ \E b \in 1..Len(Bases) :
             /\ opt = ESet(Bases[b]) /\ den = Bases[b]
             /\ hist = << [op |-> "new", d |-> 1, ts |-> Bases[b]],
                          [op |-> "new", d |-> 2, ts |-> PegSets[1]],
                          [op |-> "new", d |-> 3, ts |-> PegSets[2]],
                          [op |-> "new", d |-> 4, ts |-> PegSets[3]] >>
PlugA == \E i \in 1..3, n \in {"x", "y"} :
           /\ opt' = EPlug(opt, n, ESet(PegSets[i]))
           /\ den' = DPlug(den, n, PegSets[i])
           /\ hist' = Append(hist, [op |-> "plug", d |-> 1, w |-> 1, n |-> n, p |-> i + 1])
FilterA == \E i \in 1..Len(Filters) :
           /\ opt' = EFilter(opt, Filters[i])
           /\ den' = DFilter(den, Filters[i])
           /\ hist' = Append(hist, [op |-> "filter", d |-> 1, w |-> 1, f |-> Filters[i]])
AppendA == \E i \in 2..3 :
           \/ /\ opt' = EAppend(opt, ESet(PegSets[i])) /\ den' = DAppend(den, PegSets[i])
              /\ hist' = Append(hist, [op |-> "append", d |-> 1, a |-> 1, b |-> i + 1])
           \/ /\ opt' = EAppend(ESet(PegSets[i]), opt) /\ den' = DAppend(PegSets[i], den)
              /\ hist' = Append(hist, [op |-> "append", d |-> 1, a |-> i + 1, b |-> 1])
SelfAppend == /\ opt' = EAppend(opt, opt) /\ den' = DAppend(den, den)
              /\ hist' = Append(hist, [op |-> "append", d |-> 1, a |-> 1, b |-> 1])
SelfPlug == /\ opt' = EPlug(opt, "x", opt) /\ den' = DPlug(den, "x", den)
            /\ hist' = Append(hist, [op |-> "plug", d |-> 1, w |-> 1, n |-> "x", p |-> 1])
Small == Len(den) <= 12
Next == /\ Len(hist) < Depth + 4
        /\ \/ PlugA /\ Small
           \/ FilterA
           \/ AppendA
           \/ SelfAppend
           \/ SelfPlug /\ Len(den) <= 4
Spec == Init /\ [][Next]_vars

Faithful == SameBag(Force(opt), den)
(* what makes pushing a filter through a plug sound *)
MonotoneSound ==
  opt.k = "filter" /\ Monotonic(opt.f) =>
     \A i \in 1..Len(den) : \A u \in Subterms(den[i]) : Test(opt.f, den[i]) => Test(opt.f, u)
Emit == (EMIT /\ Len(hist) = Depth + 4) => PrintT(ToJson(hist))
=============================================================================
