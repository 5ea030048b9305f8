-------------------------------- MODULE MCMat --------------------------------
(* Turning a workload into an e-graph: the variables, in order of first    *)
(* appearance, are given all combinations of the sample values, then the   *)
(* terms are added one by one.  Over all small workloads the result        *)
(* satisfies the contract MatOk, whichever variable changes fastest, and   *)
(* MatOk refuses results with a lost row, a lost term, a foreign term or   *)
(* variables out of order.  Each workload is replayed.                     *)
EXTENDS Analysis, Json, IOUtils
LEVEL == atoi(IOEnv.LEVEL)
X == <<"x">>  Y == <<"y">>  N1 == <<"1">>
Pool(lang) == LET op == IF lang \in Toys THEN "+" ELSE "&"  oq == IF lang \in Toys THEN "/" ELSE "-" IN
  << X, Y, N1, <<"~", X>>, <<op, X, Y>>, <<op, Y, X>>, <<op, Y, Y>> >>
  \o (IF lang \in Toys THEN << <<oq, N1, X>>, <<"m", Y, X, <<"z">>>> >> ELSE << <<oq, Y>>, <<"+", X, <<op, N1, <<"z">>>>>> >>)
Langs == IF LEVEL = 1 THEN {"toy", "bv2"} ELSE {"toy", "toyf", "bv1", "bv2", "bv3"}
VARIABLES lang, ts, g, vs, base, i
vars == <<lang, ts, g, vs, base, i>>
MaxLen == IF LEVEL = 1 THEN 2 ELSE 3
Init == /\ lang \in Langs
        /\ ts \in UNION {[1..n -> {Pool(lang)[j] : j \in 1..Len(Pool(lang))}] : n \in 1..MaxLen}
        /\ g = Empty /\ vs = <<>> /\ base = <<>> /\ i = 0
RECURSIVE Pw(_, _)
Pw(b, e) == IF e = 0 THEN 1 ELSE b * Pw(b, e - 1)
S == SetToSeq(Samples(lang))
N == Len(S)
Rows(n) == Pw(N, n)
Prepare(fast) ==
  LET v == FirstVars(lang, ts)  n == Len(v) IN
  /\ i = 0 /\ i' = 1 /\ vs' = v
  /\ g' = AddTerms(Empty, [j \in 1..n |-> <<v[j]>>])
  /\ base' = [x \in {v[j] : j \in 1..n} |->
               LET j == CHOOSE j \in 1..n : v[j] = x
                   e == IF fast THEN j - 1 ELSE n - j
               IN [k \in 1..Rows(n) |-> S[(((k - 1) \div Pw(N, e)) - N * ((k - 1) \div Pw(N, e + 1))) + 1]]]
  /\ UNCHANGED <<lang, ts>>
AddOne == /\ i > 0 /\ i <= Len(ts) /\ g' = AddTerm(g, ts[i]).g /\ i' = i + 1 /\ UNCHANGED <<lang, ts, vs, base>>
Next == Prepare(TRUE) \/ Prepare(FALSE) \/ AddOne
Done == i > Len(ts)
Len0 == Rows(Len(vs))
DumpOf(h, len, b) == LET cv == CvOf([lang |-> lang, len |-> len, base |-> b], h)  by == ByClass(h)
                         cs == SetToSeq(DOMAIN by)
                     IN [k \in 1..Len(cs) |-> [id |-> cs[k], n |-> SetToSeq(by[cs[k]]), cv |-> cv[cs[k]]]]
Fine(h, len, b) == MatOk(lang, ts, DumpOf(h, len, b), len)
Right == Done => Fine(g, Len0, base)
\* nothing but the terms and their parts; every class holds one
OnlyParts == i > 0 => /\ NumClasses(g) = NumNodes(g)
                      /\ LET at == {Lookup(g, u) : u \in UNION {SubT(ts[j]) : j \in 1..Len(ts)}} IN Classes(g) \subseteq at
Lost == (Done /\ Len0 > 1) => ~Fine(g, Len0 - 1, [x \in DOMAIN base |-> SubSeq(base[x], 1, Len0 - 1)])
Twice == (Done /\ vs # <<>>) => ~Fine(g, Len0, [x \in DOMAIN base |-> [base[x] EXCEPT ![1] = base[x][Len0]]])
Foreign == Done => ~Fine(AddTerm(g, <<"~", <<"~", ts[1]>>>>).g, Len0, base) \/ Lookup(g, <<"~", <<"~", ts[1]>>>>) # NONE
Missing == Done => \A k \in DOMAIN g : (\E j \in 1..Len(ts) : Lookup(g, ts[j]) = g[k]) =>
              LET h == [q \in DOMAIN g \ {k} |-> g[q]] IN
              (\A q \in DOMAIN h : \A m \in 1..Len(q[2]) : q[2][m] # g[k]) => ~Fine(h, Len0, base)
Backwards == (Done /\ Len(vs) > 1) =>
  ~Fine(AddTerms(Empty, [j \in 1..Len(vs) |-> <<vs[Len(vs) + 1 - j]>>] \o ts), Len0, base)
Emit == i = 0 => PrintT(ToJson(<< <<lang>>, <<[op |-> "mat", d |-> 1, ts |-> ts]>> >>))
=============================================================================
