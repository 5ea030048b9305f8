------------------------------- MODULE Logger -------------------------------
(* The report file.  A state f is [k, rows, raw, blocked, loc]: what kind  *)
(* of file there is, its rows (as texts), its contents if it has none,     *)
(* whether the folder cannot be made, and the recipes' line counts.        *)
EXTENDS Ruleset
NoFile == [k |-> "absent", rows |-> <<>>, raw |-> "", blocked |-> FALSE, loc |-> <<>>]
\* kinds a call can extend
Writable(f) == f.k \in {"absent", "empty", "rows"} /\ ~f.blocked
Calls == {"baseline", "bv", "ff"}
\* the file kind after a starting step
Start(s, f) == CASE s.k \in {"absent", "nofile"} -> f
                 [] s.k = "blocked" -> [f EXCEPT !.blocked = TRUE]
                 [] s.k = "dir" -> [f EXCEPT !.k = "unreadable"]
                 [] s.k = "rows" -> [f EXCEPT !.k = "rows", !.rows = s.rows]
                 [] s.k = "empty" -> [f EXCEPT !.k = "empty"]
                 [] OTHER -> [f EXCEPT !.k = "bad", !.raw = s.raw]
Lines(s) == Len(s.lines)
\* the file after a step in which a call adds the text t
Effect2(s, f, t) ==
  CASE s.op = "pre" -> Start(s, f)
    [] s.op = "recipe" -> [f EXCEPT !.loc = (s.n :> Lines(s)) @@ @]
    [] s.op \in Calls /\ Writable(f) -> [f EXCEPT !.k = "rows", !.rows = Append(@, t)]
    [] OTHER -> f
\* comparisons that are left out, by (deriving, derived)
Skipped == {<<"herbie", "rational_replicate">>, <<"herbie", "rational_best">>}
Texts(rs) == [i \in 1..Len(rs) |-> RuleText(rs[i])]
Set(s) == {s[i] : i \in 1..Len(s)}
Pick(rs, v, b) == {RuleText(rs[i]) : i \in {i \in 1..Len(rs) : v[i] = b}}
\* the tables of a row: which directions and modes
Tables(s) ==
  IF s.op = "bv" THEN {<<"-", "lhs">>, <<"-", "lhs_rhs">>}
  ELSE (IF <<s.spec, s.base>> \in Skipped THEN {} ELSE {"enumo_derives_baseline"} \X {"lhs", "lhs_rhs"})
       \cup (IF <<s.base, s.spec>> \in Skipped THEN {} ELSE {"baseline_derives_enumo"} \X {"lhs", "lhs_rhs"})
\* a table entry d against the answers v for the rules rs
TableOk(d, rs, v) ==
  /\ Set(d.can) = Pick(rs, v, TRUE) /\ Set(d.cannot) = Pick(rs, v, FALSE)
  /\ Len(d.can) + Len(d.cannot) = Len(rs)
  /\ d.time
  /\ d.dt \in {"-", IF d.ty = "lhs" THEN "Lhs" ELSE "LhsAndRhs"}
PhaseText(p) == (CASE p.s = "simple" -> "eqsat" [] p.s = "sat" -> "sat" [] OTHER -> "compress") \o " (" \o p.n \o ")"
(* A row against the call that wrote it.  ans(dir, ty) are the answers.    *)
RowOk(s, f, row, sound, ans(_, _)) ==
  /\ row.ty = (IF s.op = "ff" THEN "ff_phases" ELSE s.op)
  /\ row.time = s.time
  /\ CASE s.op = "ff" -> /\ row.ph = [i \in 1..3 |-> PhaseText(s.ph[i])]
                         /\ row.rules = Texts(s.a)
       [] s.op = "baseline" ->
            /\ row.spec = s.spec /\ row.base = s.base
            /\ row.loc = (IF s.spec \in DOMAIN f.loc THEN ToString(f.loc[s.spec]) ELSE "-")
            /\ row.rules = Texts(s.a)
       [] s.op = "bv" ->
            /\ row.domain = s.domain /\ row.vt
            /\ row.rules = Texts(s.b)
            /\ Set(row.sound) = Set(Texts(sound)) /\ Len(row.sound) = Len(sound)
  /\ s.op # "ff" =>
       /\ Len(row.der) = Cardinality(Tables(s))
       /\ {<<row.der[i].dir, row.der[i].ty>> : i \in 1..Len(row.der)} = Tables(s)
       /\ \A i \in 1..Len(row.der) :
            LET d == row.der[i] IN
            TableOk(d, IF d.dir = "baseline_derives_enumo" THEN s.a ELSE s.b, ans(d.dir, d.ty))
=============================================================================
