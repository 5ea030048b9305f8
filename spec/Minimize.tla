------------------------------ MODULE Minimize ------------------------------
(* Rule selection as a transition system: in each step the best remaining  *)
(* valid candidate (with its reverse, if that is a valid candidate too) is *)
(* kept and everything the rules now prove is dropped.                     *)
EXTENDS Cands

Rev(r) == <<r[2], r[1]>>
\* candidates of rem that stay apart when the rules run over all their sides
Shrink(s, rem, rules, k) ==
  LET rs == SetToSeq(rem)
      g == AddTerms(Empty, FlattenSeq([i \in 1..Len(rs) |-> LeafT(rs[i])]))
      h == RunSched(NoData, s, g, rules, k).g
  IN {r \in rem : Lookup(h, Inst(r[1])) # Lookup(h, Inst(r[2]))}

(* All states reachable by one selection.  st = [rem, got]; kept is the    *)
(* recorded outcome, used only to prune ties.                              *)
Selections(s, k, prior, kept, valid, st) ==
  LET V == {r \in st.rem : valid[r]}
      best == {r \in V : \A q \in V : CmpScore(r, q) >= 0}
      priorS == {prior[i] : i \in 1..Len(prior)}
      picks == {r \in best : r \in kept \cup priorS}
  IN UNION {
       LET rv == Rev(c)
           take == {c} \cup (IF rv \in V THEN {rv} ELSE {})
           above == {q \in st.rem \ V : CmpScore(q, c) > 0}
           tied == {q \in st.rem \ V : CmpScore(q, c) = 0}
           got == st.got \cup take
           rules == prior \o SetToSeq(got \ priorS)
           outs(I) == LET rem1 == st.rem \ ({c} \cup above \cup I)
                      IN [rem |-> Shrink(s, rem1, rules, k), got |-> got]
       IN IF take \subseteq kept \cup priorS
          THEN {outs(I) : I \in IF Cardinality(tied) <= 2 THEN SUBSET tied ELSE {{}, tied}}
          ELSE {}
       : c \in picks}
RECURSIVE Walk(_, _, _, _, _, _)
Walk(s, k, prior, kept, valid, sts) ==
  LET fin(st) == \A r \in st.rem : ~valid[r]
      priorS == {prior[i] : i \in 1..Len(prior)}
  IN \/ \E st \in sts : fin(st) /\ st.got \ priorS = kept \ priorS
     \/ LET nxt == UNION {Selections(s, k, prior, kept, valid, st) : st \in {st \in sts : ~fin(st)}}
        IN nxt # {} /\ Walk(s, k, prior, kept, valid, nxt)

MinimizeOk(lang, s, k, cands, prior, chosen, invalid) ==
  LET cs == {cands[i] : i \in 1..Len(cands)}
      ps == {prior[i] : i \in 1..Len(prior)}
      kept == {chosen[i] : i \in 1..Len(chosen)}
      inv == {invalid[i] : i \in 1..Len(invalid)}
      valid == TLCEval([r \in cs |-> ValidRule(lang, r[1], r[2])])
      g == AddTerms(Empty, FlattenSeq([i \in 1..Len(cands) |-> LeafT(cands[i])]))
      all == prior \o chosen
      h == RunSched(NoData, s, g, all, k).g
  IN /\ kept \subseteq cs \ ps                                   \* candidates, new
     /\ \A r \in kept : valid[r]                                 \* valid
     /\ Len(chosen) = Cardinality(kept) /\ Len(invalid) = Cardinality(inv)
     /\ inv \subseteq cs /\ \A r \in inv : ~valid[r]             \* reported invalid
     /\ \A r \in cs \ (kept \cup ps) : valid[r] =>               \* dropped, hence proved
          Lookup(h, Inst(r[1])) = Lookup(h, Inst(r[2]))
     /\ Walk(s, k, prior, kept, valid, {[rem |-> cs, got |-> {}]})
=============================================================================
