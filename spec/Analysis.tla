------------------------------ MODULE Analysis ------------------------------
(* What the class analysis of a recorded e-graph must say, and what a      *)
(* freshly materialised workload must contain.                             *)
EXTENDS EGraph

\* recorded data by class id
Rec(d)   == [c \in {d[i].id : i \in 1..Len(d)} |-> d[CHOOSE i \in 1..Len(d) : d[i].id = c]]
CvRec(d) == LET r == Rec(d) IN [c \in DOMAIN r |-> r[c].cv]
Members(d, i) == {d[i].n[j] : j \in 1..Len(d[i].n)}

(* Each position is the value of any member defined there.                 *)
CvecOk(D, d) ==
  LET cv == CvRec(d) IN
  \A i \in 1..Len(d) :
    LET vs == {EvalNode(D, n, cv) : n \in Members(d, i)} IN
    /\ Len(d[i].cv) = D.len
    /\ \A p \in 1..D.len : LET ds == {v[p] : v \in vs} \ {NONE} IN
         IF ds = {} THEN d[i].cv[p] = NONE ELSE ds = {d[i].cv[p]}

-----------------------------------------------------------------------------
(* Intervals: a bound is <<>> (none) or <<n>>.                             *)
Unb == [lo |-> <<>>, hi |-> <<>>]
NegB(b) == IF b = <<>> THEN <<>> ELSE <<-b[1]>>
AddB(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<a[1] + b[1]>>
MaxB(a, b) == IF a[1] > b[1] THEN a ELSE b
MinB(a, b) == IF a[1] < b[1] THEN a ELSE b
\* leaves of the interval domain: i<lo>_<hi>, n marks a minus sign
Signed(s) == IF s = "" THEN <<>> ELSE IF SubSeq(s, 1, 1) = "n" THEN <<-LitTab[SubSeq(s, 2, Len(s))]>> ELSE <<LitTab[s]>>
LeafItv(s) ==
  IF IsLit(s) THEN [lo |-> <<LitTab[s]>>, hi |-> <<LitTab[s]>>]
  ELSE IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "-" /\ IsLit(SubSeq(s, 2, Len(s)))
  THEN LET n == -LitTab[SubSeq(s, 2, Len(s))] IN [lo |-> <<n>>, hi |-> <<n>>]
  ELSE IF SubSeq(s, 1, 1) = "i" /\ \E k \in 2..Len(s) : SubSeq(s, k, k) = "_"
  THEN LET k == CHOOSE k \in 2..Len(s) : SubSeq(s, k, k) = "_"
       IN [lo |-> Signed(SubSeq(s, 2, k - 1)), hi |-> Signed(SubSeq(s, k + 1, Len(s)))]
  ELSE Unb
NodeItv(lang, n, it) ==
  CASE lang = "iv" ->
      (CASE n[2] = <<>> -> LeafItv(n[1])
         [] n[1] = "+" -> [lo |-> AddB(it[n[2][1]].lo, it[n[2][2]].lo), hi |-> AddB(it[n[2][1]].hi, it[n[2][2]].hi)]
         [] n[1] = "~" -> [lo |-> NegB(it[n[2][1]].hi), hi |-> NegB(it[n[2][1]].lo)]
         [] n[1] = "max" -> LET a == it[n[2][1]]  b == it[n[2][2]] IN
              [lo |-> IF a.lo = <<>> THEN b.lo ELSE IF b.lo = <<>> THEN a.lo ELSE MaxB(a.lo, b.lo),
               hi |-> IF a.hi = <<>> \/ b.hi = <<>> THEN <<>> ELSE MaxB(a.hi, b.hi)]
         [] OTHER -> Unb)
    [] lang \in Bvs /\ n[2] = <<>> /\ IsLit(n[1]) -> LeafItv(n[1])
    [] OTHER -> Unb
Meet(a, b) == [lo |-> IF a.lo = <<>> THEN b.lo ELSE IF b.lo = <<>> THEN a.lo ELSE MaxB(a.lo, b.lo),
               hi |-> IF a.hi = <<>> THEN b.hi ELSE IF b.hi = <<>> THEN a.hi ELSE MinB(a.hi, b.hi)]
ItvOk(lang, d) ==
  LET r == Rec(d)  it == [c \in DOMAIN r |-> [lo |-> r[c].lo, hi |-> r[c].hi]] IN
  \A i \in 1..Len(d) :
    LET m == FoldLeft(LAMBDA a, n : Meet(a, NodeItv(lang, n, it)), Unb, d[i].n) IN
    /\ m = it[d[i].id]
    /\ (m.lo # <<>> /\ m.lo = m.hi) => <<ToString(m.lo[1]), <<>>>> \in Members(d, i)

\* the simplest term is a term of the class, and no term of the class is
\* smaller: no node does better with the simplest terms of its children ...
SimplestOk(d) ==
  LET g == FromDump(d)
      r == Rec(d)
      sz == TLCEval([c \in DOMAIN r |-> Size(r[c].s)]) IN
  \A i \in 1..Len(d) :
    /\ Lookup(g, d[i].s) = d[i].id
    /\ \A j \in 1..Len(d[i].n) :
         sz[d[i].id] <= FoldLeft(LAMBDA a, k : a + sz[k], 1, d[i].n[j][2])
\* ... and no bigger than those of the classes that went into it
SimplestShrinks(pre, post) ==
  LET g == FromDump(post)  r == Rec(post) IN
  \A i \in 1..Len(pre) : LET c == Lookup(g, pre[i].s) IN
     c # NONE => Size(r[c].s) <= Size(pre[i].s)

DataOk(D, d) == CvecOk(D, d) /\ ItvOk(D.lang, d) /\ SimplestOk(d)

-----------------------------------------------------------------------------
(* Materialisation.                                                        *)
VarLeaf(lang, op) == lang # "sym" /\ ~IsLit(op)
RECURSIVE LeafSeq(_)
LeafSeq(t) == IF Len(t) = 1 THEN <<t[1]>> ELSE FlattenSeq([i \in 1..(Len(t)-1) |-> LeafSeq(t[i+1])])
FirstVars(lang, ts) ==
  FoldLeft(LAMBDA acc, x : IF VarLeaf(lang, x) /\ x \notin {acc[i] : i \in 1..Len(acc)} THEN Append(acc, x) ELSE acc,
           <<>>, FlattenSeq([i \in 1..Len(ts) |-> LeafSeq(ts[i])]))
MatOk(lang, ts, d, len) ==
  LET g == FromDump(d)
      subs == UNION {SubT(ts[i]) : i \in 1..Len(ts)}
      vs == FirstVars(lang, ts)
      at == TLCEval([t \in subs |-> Lookup(g, t)])
      r == Rec(d)
      nv == Len(vs)
      row(i) == [v \in {vs[j] : j \in 1..nv} |-> r[at[<<v>>]].cv[i]]
      RECURSIVE Pw(_, _)
      Pw(b, e) == IF e = 0 THEN 1 ELSE b * Pw(b, e - 1)
  IN /\ WellFormed(d)
     /\ \A t \in subs : at[t] # NONE                                        \* every term
     /\ Len(d) = Cardinality(subs) /\ NumNodes(g) = Cardinality(subs)       \* nothing else
     /\ \A j \in 1..(nv-1) : at[<<vs[j]>>] < at[<<vs[j+1]>>]                \* order of first appearance
     /\ ts # <<>> =>
        /\ len = Pw(Cardinality(Samples(lang)), nv)
        /\ \A i \in 1..Len(d) : Len(d[i].cv) = len
        /\ LET rows == {row(i) : i \in 1..len} IN                           \* all combinations, once
           /\ Cardinality(rows) = len
           /\ \A x \in rows : \A v \in DOMAIN x : x[v] \in Samples(lang)
        /\ \A t \in subs : \A i \in 1..len : r[at[t]].cv[i] = EvalT(lang, t, row(i))
=============================================================================
