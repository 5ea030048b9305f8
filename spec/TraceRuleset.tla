---------------------------- MODULE TraceRuleset ----------------------------
(* Recorded histories of real rulesets checked against Ruleset.            *)
EXTENDS Ruleset, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, regs, ok
vars == <<h, l, regs, ok>>
Init == /\ h \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ regs = <<<<>>, <<>>, <<>>, <<>>>>
Steps == Traces[h].steps
S == Steps[l].in
O == Steps[l].out
\* a recorded rule [lhs, rhs, key, name, display] carries its own text everywhere
Consistent(q) == Len(q) = 5 /\ \A i \in 3..5 : q[i] = RuleText(<<q[1], q[2]>>)
View(qs) == [i \in 1..Len(qs) |-> <<qs[i][1], qs[i][2]>>]
Views == [i \in 1..4 |-> View(O.regs[i])]
AllConsistent == \A i \in 1..4 : \A j \in 1..Len(O.regs[i]) : Consistent(O.regs[i][j])
Call == /\ O.r = "ok"
        /\ ok' = /\ AllConsistent
                 /\ Allowed(S, regs, Views)
                 /\ CASE S.op = "size" -> /\ O.len = Len(regs[S.a])
                                          /\ O.empty = (regs[S.a] = <<>>)
                                          /\ O.bidir = PairCount(regs[S.a])
                                          /\ \A i \in 1..Len(S.rules) : O.has[i] = (S.rules[i] \in SeqSet(regs[S.a]))
                      [] S.op = "eq" -> O.b = (regs[S.a] = regs[S.b])
                      [] S.op = "show" -> IsListing(O.lines, regs[S.a])
                      [] S.op = "pd" -> LET a == regs[S.a]  b == regs[S.b]
                                            miss == SelectSeq(b, LAMBDA r : ~Derive(a, r, S.ty # "lhs", 5))
                                        IN /\ O.nums = <<Len(a), Len(b), Len(b) - Len(miss), Len(miss)>>
                                           /\ IsListing(O.lines, miss)
                      [] S.op = "parse" -> LET e == TextRules(S.text) IN
                           /\ O.err = (e = <<>>)
                           /\ e # <<>> => /\ Consistent(O.f) /\ <<O.f[1], O.f[2]>> = e[1]
                                          /\ Len(O.b) = Len(e) - 1
                                          /\ Len(e) = 2 => Consistent(O.b[1]) /\ <<O.b[1][1], O.b[1][2]>> = e[2]
                      [] OTHER -> TRUE
        /\ regs' = IF AllConsistent THEN Views ELSE regs
Bad == O.r \in {"panic", "hang", "crash"} /\ ok' = FALSE /\ UNCHANGED regs
Next == /\ ok /\ l <= Len(Steps)
        /\ Call \/ Bad
        /\ l' = l + 1 /\ h' = h
Conforms == ok
=============================================================================
