----------------------------- MODULE MCNightly ------------------------------
(* A page holds the recorded list and draws it entry by entry, as often as *)
(* it is asked (opening the page, then generating tables).  For all short  *)
(* lists, in every order: each drawing shows every rule exactly once with  *)
(* opposites together, and drawing leaves the recorded list alone.         *)
EXTENDS Nightly, Json, IOUtils
N == atoi(IOEnv.LEVEL) + 2
Pool == << <<"(f ?a)", "?a">>, <<"?a", "(f ?a)">>, <<"(sin ?a)", "(g ?a)">>, <<"(g ?a)", "(sin ?a)">>, <<"(< ?a ?b)", "k">> >>
Lists == UNION {{s \in [1..n -> SetOf(Pool)] : \A i, j \in 1..n : i < j => s[i] # s[j]} : n \in 0..N}
VARIABLES list, held, i, out, shown, draws
vars == <<list, held, i, out, shown, draws>>
Init == list \in Lists /\ held = list /\ i = 0 /\ out = <<>> /\ shown = {} /\ draws = 0
Draw == i = 0 /\ draws < 2 /\ i' = 1 /\ out' = <<>> /\ shown' = {} /\ draws' = draws + 1 /\ UNCHANGED <<list, held>>
Entry == /\ i > 0 /\ i <= Len(held)
         /\ i' = i + 1 /\ UNCHANGED <<list, held, draws>>
         /\ LET r == held[i] IN
            IF r \in shown THEN UNCHANGED <<out, shown>>
            ELSE IF Opp(r) \in SetOf(held) THEN out' = Append(out, Two(r)) /\ shown' = shown \cup {Opp(r)}
            ELSE out' = Append(out, One(r)) /\ UNCHANGED shown
Done == i > Len(held) /\ i' = 0 /\ UNCHANGED <<list, held, out, shown, draws>>
Next == Draw \/ Entry \/ Done
Drawn == i = 0 /\ draws > 0 => ListOk(IF held = <<>> THEN <<"-">> ELSE out, list)
Kept == held = list
\* the behaviour to replay: the list as rules, and as underivable rules of both tables
D(dir, ty, a, b) == [dir |-> dir, ty |-> ty, can |-> a, cannot |-> b, time |-> 125]
Data == << [ty |-> "baseline", base |-> "oopsla", spec |-> "bool", loc |-> "7", rules |-> list, time |-> 1500,
            der |-> <<D(EB, "lhs", <<>>, list), D(EB, "lhs_rhs", list, <<>>), D(BE, "lhs", list, list), D(BE, "lhs_rhs", <<Pool[5]>>, list)>>],
           [ty |-> "bv", domain |-> "BV8", rules |-> list, time |-> 2000, sound |-> <<Pool[5]>>, vt |-> 375,
            der |-> <<D("-", "lhs", <<Pool[5]>>, list), D("-", "lhs_rhs", list, list)>>],
           [ty |-> "ff_phases", ph |-> <<"eqsat (R)", "compress (E)", "sat (A)">>, rules |-> list, time |-> 875] >>
Beh == << [op |-> "data", rows |-> Data], [op |-> "index"], [op |-> "follow", i |-> 1, p |-> "rules"], [op |-> "follow", i |-> 1, p |-> "detail"],
          [op |-> "bv"], [op |-> "click", n |-> "bv"], [op |-> "click", n |-> "bv"], [op |-> "ff"], [op |-> "click", n |-> "ff"] >>
Emit == (draws = 2 /\ i = 0) => PrintT(ToJson(Beh))
=============================================================================
