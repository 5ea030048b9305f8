------------------------------- MODULE Scrape -------------------------------
(* Collecting Halide's rewrites from C++ sources.  A file is a sequence of *)
(* items: calls rewrite(left, right [, condition]), whose arguments are    *)
(* token sequences, and other tokens.  Comments and layout carry nothing.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
\* tokens that mention something the rules' language lacks
Lacks == {"broadcast(", "ramp(", "fold(", "pos_inf", "neg_inf", "IRMatcher::Overflow(", "intrin(", "halving_add(",
          "shift_right(", "cast(", "is_const(", "uint_ty", "%"}
Cat(ts) == FoldLeft(LAMBDA a, b : a \o b, "", ts)
Calls(f) == SelectSeq(f, LAMBDA x : x.k = "rw")
Supported(c) == \A i \in 1..Len(c.args) : \A j \in 1..Len(c.args[i]) : c.args[i][j] \notin Lacks
Plain(c) == Cat(c.args[1]) \o "==>" \o Cat(c.args[2])
Cond(c) == Plain(c) \o "if" \o Cat(c.args[3])
\* all rules with n arguments, over all files
Listed(fs, n) == LET cs == SelectSeq(FlattenSeq([i \in 1..Len(fs) |-> Calls(fs[i].items)]),
                                     LAMBDA c : Len(c.args) = n /\ Supported(c))
                 IN [i \in 1..Len(cs) |-> IF n = 3 THEN Cond(cs[i]) ELSE Plain(cs[i])]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
\* files with rewrites and how many each has
Counts(fs) == {<<fs[i].name, Len(Calls(fs[i].items))>> : i \in {i \in 1..Len(fs) : Calls(fs[i].items) # <<>>}}
=============================================================================
