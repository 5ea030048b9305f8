------------------------------ MODULE MCGeneral ------------------------------
(* Generalising a pair of terms, leaf by leaf: a variable not met yet gets *)
(* some pattern variable not used yet, a known one the same again.  Over   *)
(* all small pairs of terms the result satisfies GenOk, which in turn      *)
(* accepts no other way of naming.                                         *)
EXTENDS Cands, Json, IOUtils
LEVEL == atoi(IOEnv.LEVEL)
Lang == "toy"
Leafs == {<<"x">>, <<"y">>, <<"z">>, <<"0">>} \cup (IF LEVEL = 1 THEN {} ELSE {<<"1">>})
Small == Leafs \cup {<<"~", t>> : t \in Leafs} \cup {<<"+", t, u>> : t \in Leafs, u \in Leafs}
Wide == {<<"m", t[1], t[2], t[3]>> : t \in [1..3 -> Leafs]} \cup {<<"*", t, <<"+", u, v>>>> : t \in Leafs, u \in Leafs, v \in Leafs}
Names == <<"?a", "?b", "?c">>
VARIABLES a, b, at, map
vars == <<a, b, at, map>>
Init == /\ a \in Small \cup (IF LEVEL = 1 THEN {} ELSE Wide) /\ b \in Small
        /\ at = 1 /\ map = <<>>
Leaves == LeafSeq(a) \o LeafSeq(b)
Next == /\ at <= Len(Leaves)
        /\ at' = at + 1 /\ UNCHANGED <<a, b>>
        /\ IF VarLeaf(Lang, Leaves[at]) /\ Leaves[at] \notin DOMAIN map
           THEN \E i \in 1..3 : <<Names[i]>> \notin Rng(map) /\ map' = map @@ (Leaves[at] :> <<Names[i]>>)
           ELSE map' = map
Done == at > Len(Leaves)
P(f) == SubstT(a, f)  Q(f) == SubstT(b, f)
Fine(f, g) == GenOk(Lang, a, b, P(f), Q(g), Inst(P(f)), Inst(Q(g)))
Injective == \A x, y \in DOMAIN map : x # y => map[x] # map[y]
Right == Done => Fine(map, map)
\* one name for two variables, or a variable named differently on the two sides
Refuses == Done =>
  /\ \A x, y \in DOMAIN map : x # y => ~Fine([map EXCEPT ![x] = map[y]], [map EXCEPT ![x] = map[y]])
  /\ \A x \in TVars(Lang, a) \cap TVars(Lang, b) : ~Fine(map, [map EXCEPT ![x] = <<"?d">>])
\* constants and operators stay
Keeps == Done => /\ LeavesOf(P(map)) \ Rng([x \in DOMAIN map |-> map[x][1]]) = {x \in LeavesOf(a) : ~VarLeaf(Lang, x)}
                 /\ OpsOf(P(map)) = OpsOf(a) /\ Size(P(map)) = Size(a)
InOrder == LET vs == FirstVars(Lang, <<a, b>>) IN \A i \in 1..Len(vs) : map[vs[i]] = <<Names[i]>>
Emit == (Done /\ InOrder) => PrintT(ToJson(<< [op |-> "gen", a |-> a, b |-> b] >>))
=============================================================================
