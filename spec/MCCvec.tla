------------------------------- MODULE MCCvec -------------------------------
(* Matching of characteristic vectors.  The design sorts classes into      *)
(* buckets by their first value, with the classes undefined there compared *)
(* against every bucket; for all small collections of classes it must      *)
(* propose exactly the pairs of the definition.  Each collection is also   *)
(* turned into a workload (one term per vector) and replayed.              *)
EXTENDS Cands, Json, IOUtils
N == atoi(IOEnv.N)
EMIT == IOEnv.EMIT = "1"
Lang == "toyf"
X == <<"x">>
Leafs == {X, <<"0">>, <<"1">>, <<"2">>}
Grow(S) == S \cup {<<o, t, u>> : o \in {"+", "*", "/"}, t \in S, u \in Leafs}
Pool == LET T == Grow(Leafs) IN T \cup {<<"/", u, t>> : u \in Leafs, t \in T} \cup {<<o, t, <<"/", u, X>>>> : o \in {"+", "*"}, t \in {X, <<"1">>}, u \in Leafs}
VecT(t) == [i \in 1..3 |-> EvalT(Lang, t, [x |-> i - 1])]
Vecs == {VecT(t) : t \in Pool}
\* up to two smallest terms for each vector
Repr == [v \in Vecs |-> LET s == SetToSortSeq({t \in Pool : VecT(t) = v}, LAMBDA t, u : Size(t) < Size(u))
                        IN SubSeq(s, 1, IF Len(s) > 1 THEN 2 ELSE 1)]
Atoms == SetToSeq({<<v, i>> : v \in Vecs, i \in 1..2} \cap UNION {{<<v, i>> : i \in 1..Len(Repr[v])} : v \in Vecs})

VARIABLES cls, left, buckets, found, pc
vars == <<cls, left, buckets, found, pc>>
\* cls: indices into Atoms, increasing
Init == /\ cls \in {s \in [1..N -> 1..Len(Atoms)] : \A i \in 1..N - 1 : s[i] < s[i + 1]}
        /\ left = 1 /\ buckets = <<>> /\ found = {} /\ pc = "sort"
V(i) == Atoms[cls[i]][1]
\* a class without any value takes no part
Sort == /\ pc = "sort" /\ left <= N
        /\ buckets' = IF \A j \in 1..3 : V(left)[j] = NONE THEN buckets
                      ELSE IF V(left)[1] \in DOMAIN buckets
                      THEN [buckets EXCEPT ![V(left)[1]] = Append(@, left)]
                      ELSE buckets @@ (V(left)[1] :> <<left>>)
        /\ left' = left + 1 /\ UNCHANGED <<cls, found, pc>>
Compare == /\ pc = "sort" /\ left > N
           /\ found' = UNION {LET none == IF NONE \in DOMAIN buckets /\ b # NONE THEN buckets[NONE] ELSE <<>>
                                  all == buckets[b] \o none
                              IN {{all[i], all[j]} : i \in 1..Len(all), j \in 1..Len(all)} \cap
                                 {{all[p[1]], all[p[2]]} : p \in {p \in (1..Len(all)) \X (1..Len(all)) : p[1] < p[2] /\ MatchVec(V(all[p[1]]), V(all[p[2]]))}}
                              : b \in DOMAIN buckets}
           /\ pc' = "done" /\ UNCHANGED <<cls, left, buckets>>
Next == Sort \/ Compare
Pairs(rel(_, _)) == {{p[1], p[2]} : p \in {p \in (1..N) \X (1..N) : p[1] < p[2] /\ rel(V(p[1]), V(p[2]))}}
Exact == pc = "done" => found = Pairs(MatchVec)
FastIsPart == pc = "done" => Pairs(IdVec) \subseteq found
\* fast groups are equivalence classes; matching is symmetric but need not be transitive
Groups == pc = "done" => /\ \A i \in 1..N, j \in 1..N, k \in 1..N : IdVec(V(i), V(j)) /\ IdVec(V(j), V(k)) => IdVec(V(i), V(k))
                         /\ \A i \in 1..N, j \in 1..N : MatchVec(V(i), V(j)) = MatchVec(V(j), V(i))
\* total vectors: both matchers agree
TotalSame == (pc = "done" /\ \A i \in 1..N : \A j \in 1..3 : V(i)[j] # NONE) => Pairs(MatchVec) = Pairs(IdVec)
Emit == (EMIT /\ pc = "done") =>
   PrintT(ToJson(<< [op |-> "mat", d |-> 1, ts |-> [i \in 1..N |-> Repr[V(i)][Atoms[cls[i]][2]]]],
                    [op |-> "cm", g |-> 1], [op |-> "fm", g |-> 1] >>))
=============================================================================
