------------------------------ MODULE Nightly ------------------------------
(* The nightly pages as views of the report's rows.  A row is what Logger  *)
(* records: its kind, names, rules (as pairs of texts), times (in          *)
(* thousandths of a second) and derivability tables.  A cell of a page is  *)
(* a sequence of lines.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
SetOf(s) == {s[i] : i \in 1..Len(s)}

(* ------- numbers as shown: every text that is a correct rounding ------- *)
RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN "" ELSE Digits(n \div 10, k - 1) \o ToString(n % 10)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Fixed(q, d) == ToString(q \div Pow10(d)) \o "." \o Digits(q, d)
\* n / d to the nearest integer, a tie either way
Nearest(n, d) == (IF 2 * (n % d) <= d THEN {n \div d} ELSE {}) \cup (IF 2 * (n % d) >= d THEN {n \div d + 1} ELSE {})
\* a time with d decimals, none if it is whole
Num(t, d) == IF t % 1000 = 0 THEN {ToString(t \div 1000)} ELSE {Fixed(q, d) : q \in Nearest(t, Pow10(3 - d))}
Percent(c, n) == IF c = n THEN {"100%"} ELSE {Fixed(q, 1) \o "%" : q \in Nearest(1000 * c, n)}

(* ------------------------------- listings ------------------------------ *)
One(r) == r[1] \o " ==> " \o r[2]
Two(r) == r[1] \o " <=> " \o r[2]
Opp(r) == <<r[2], r[1]>>
\* every rule exactly once, a rule and its opposite together
Pairs(rs) == {r \in SetOf(rs) : Opp(r) \in SetOf(rs)}
ListOk(lines, rs) ==
  IF rs = <<>> THEN lines = <<"-">>
  ELSE /\ Len(lines) = Len(rs) - Cardinality(Pairs(rs)) \div 2
       /\ \A r \in SetOf(rs) :
            Cardinality({i \in 1..Len(lines) : lines[i] \in (IF r \in Pairs(rs) THEN {Two(r), Two(Opp(r))} ELSE {One(r)})}) = 1

(* ----------------------------- rows of a kind -------------------------- *)
Kind(data, k) == SelectSeq(data, LAMBDA r : r.ty = k)
Against(data, b) == SelectSeq(data, LAMBDA r : r.ty = "baseline" /\ r.base = b)
NoDer == [none |-> TRUE]
Der(row, dir, ty) ==
  LET is == {i \in 1..Len(row.der) : row.der[i].dir = dir /\ row.der[i].ty = ty}
  IN IF is = {} THEN NoDer ELSE row.der[CHOOSE i \in is : TRUE]
Has(d) == "can" \in DOMAIN d
Share(d) == IF Has(d) THEN Percent(Len(d.can), Len(d.can) + Len(d.cannot)) ELSE {"-"}
Both(A, B) == {a \o " / " \o b : a \in A, b \in B}
Times(row, dir) ==
  LET x == Der(row, dir, "lhs")  y == Der(row, dir, "lhs_rhs")
  IN IF Has(x) THEN Both(Num(x.time, 3), Num(y.time, 3)) ELSE {"-"}
Text(s) == [k |-> "one", set |-> {<<t>> : t \in s}]
List(rs) == [k |-> "list", rs |-> rs]
CellOk(c, e) == IF e.k = "one" THEN c \in e.set ELSE ListOk(c, e.rs)
RowOk(r, e) == Len(r) = Len(e) /\ \A i \in 1..Len(e) : CellOk(r[i], e[i])
Blank(r) == \A i \in 1..Len(r) : \A j \in 1..Len(r[i]) : r[i][j] = ""
\* a table with these columns and one row per experiment, in order; without experiments no row but blank ones
TableOk(t, head, es) ==
  IF es = <<>> THEN \A i \in 1..Len(t.rows) : Blank(t.rows[i])
  ELSE t.head = head /\ Len(t.rows) = Len(es) /\ \A i \in 1..Len(es) : RowOk(t.rows[i], es[i])

BaselineHead == <<"Baseline", "Enumo Spec", "Enumo LOC", "# Enumo", "Time (s)",
  "Enumo Derives Baseline (LHS / LHSRHS)", "Enumo derives Baseline Time (s)",
  "Baseline Derives Enumo (LHS / LHSRHS)", "Baseline derives Enumo Time (s)">>
EB == "enumo_derives_baseline"
BE == "baseline_derives_enumo"
BaselineRow(r) == <<Text({r.base}), Text({r.spec}), Text({r.loc}), Text({ToString(Len(r.rules))}), Text(Num(r.time, 2)),
  Text(Both(Share(Der(r, EB, "lhs")), Share(Der(r, EB, "lhs_rhs")))), Text(Times(r, EB)),
  Text(Both(Share(Der(r, BE, "lhs")), Share(Der(r, BE, "lhs_rhs")))), Text(Times(r, BE))>>
BvHead == <<"Domain", "Generated", "Gen Time (s)", "From BV4", "From BV4 Time (s)", "LHS", "LHS Time", "LHS Missing",
  "LHS-RHS", "LHS-RHS Time", "LHS-RHS Missing">>
BvRow(r) ==
  LET x == Der(r, "-", "lhs")  y == Der(r, "-", "lhs_rhs")
  IN <<Text({r.domain}), Text({ToString(Len(r.rules))}), Text(Num(r.time, 2)), Text({ToString(Len(r.sound))}), Text(Num(r.vt, 2)),
       Text(Share(x)), Text(Num(x.time, 3)), List(x.cannot), Text(Share(y)), Text(Num(y.time, 3)), List(y.cannot)>>
FFHead == <<"Phase 1", "Phase 2", "Phase 3", "Time", "Trig Rules">>
\* the operators of a term's text: the words after opening brackets
IsIn(w, t) == \E i \in 1..Len(t) : i + Len(w) <= Len(t) + 1 /\ SubSeq(t, i, i + Len(w) - 1) = w
Trig(r) == \E o \in {"(sin ", "(cos ", "(tan "} : IsIn(o, r[1]) \/ IsIn(o, r[2])
FFRow(r) == <<Text({r.ph[1]}), Text({r.ph[2]}), Text({r.ph[3]}), Text(Num(r.time, 2)), Text({ToString(Len(SelectSeq(r.rules, Trig)))})>>
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

(* --------------------------------- pages ------------------------------- *)
Named(data) == Kind(data, "baseline")
IndexOk(o, data) ==
  /\ \A i \in 1..3 : TableOk(o.tables[i], BaselineHead, Map(BaselineRow, Against(data, <<"oopsla", "herbie", "halide">>[i])))
  /\ o.names = [i \in 1..Len(Named(data)) |-> Named(data)[i].spec]
BvOk(o, data) == TableOk(o.tables[1], BvHead, Map(BvRow, Kind(data, "bv")))
FFOk(o, data) == TableOk(o.tables[1], FFHead, Map(FFRow, Kind(data, "ff_phases")))
RulesOk(o, r) == o.name = r.spec /\ ListOk(o.list, r.rules)
DetailHead == <<"Enumo->Baseline (derivable)", "Enumo->Baseline (not derivable)", "Baseline->Enumo (derivable)", "Baseline->Enumo (not derivable)">>
Split(d) == IF Has(d) THEN <<List(d.can), List(d.cannot)>> ELSE <<List(<<>>), List(<<>>)>>
DetailOk(o, r) ==
  /\ o.name = r.spec
  /\ \A i \in 1..2 : TableOk(o.tables[i], DetailHead, <<Split(Der(r, EB, <<"lhs", "lhs_rhs">>[i])) \o Split(Der(r, BE, <<"lhs", "lhs_rhs">>[i]))>>)

(* ----------------------------- LaTeX tables ---------------------------- *)
RECURSIVE Escape(_)
Escape(t) ==
  IF t = "" THEN ""
  ELSE LET c == SubSeq(t, 1, 1)
       IN (CASE c = "%" -> "\\%" [] c \in {"R", "E", "A"} -> "$\\mathcal{" \o c \o "}$" [] OTHER -> c) \o Escape(SubSeq(t, 2, Len(t)))
RECURSIVE EscapePc(_)
EscapePc(t) ==
  IF t = "" THEN "" ELSE LET c == SubSeq(t, 1, 1) IN (IF c = "%" THEN "\\%" ELSE c) \o EscapePc(SubSeq(t, 2, Len(t)))
Pc(S) == {EscapePc(t) : t \in S}
With(A, B) == {a \o " (" \o b \o ")" : a \in A, b \in B}
Comma(A, B) == {a \o ", " \o b : a \in A, b \in B}
ShownAs(n) == CASE n = "bv4_base" -> "bv4" [] n = "rational_replicate" -> "rational" [] n = "exponential" -> "Exponential"
               [] n = "rational_best" -> "Rational" [] n = "trig" -> "Trig" [] OTHER -> n
Published(n) == CASE n = "bool" -> " (0.05)" [] n = "bv4" -> " (0.96)" [] n = "bv32" -> " (13.1)" [] n = "rational" -> " (97.9)" [] OTHER -> ""
Timed(d) == IF Has(d) THEN With(Pc(Share(d)), Num(d.time, 2)) ELSE {"-"}
\* blanks around commas are not told apart
BaselineTex(r) ==
  LET d == Der(r, EB, "lhs")
  IN <<{ShownAs(r.spec)}, {r.loc}, With({ToString(Len(r.rules))}, Num(r.time, 2)),
       {ToString(Len(d.can) + Len(d.cannot)) \o Published(ShownAs(r.spec))},
       Comma(Timed(d), Timed(Der(r, EB, "lhs_rhs"))), Comma(Timed(Der(r, BE, "lhs")), Timed(Der(r, BE, "lhs_rhs")))>>
BvTex(r) ==
  LET x == Der(r, "-", "lhs")  y == Der(r, "-", "lhs_rhs")
  IN <<{r.domain}, With({ToString(Len(r.rules))}, Num(r.time, 2)), With({ToString(Len(r.sound))}, Num(r.vt, 2)), Comma(Pc(Share(x)), Pc(Share(y)))>>
FFTex(r) == <<{Escape(r.ph[1])}, {Escape(r.ph[2])}, {Escape(r.ph[3])}, Num(r.time, 2), {ToString(Len(SelectSeq(r.rules, Trig)))}>>
TexRowsOk(rows, es) == Len(rows) = Len(es) /\ \A i \in 1..Len(es) : Len(rows[i]) = Len(es[i]) /\ \A j \in 1..Len(es[i]) : rows[i][j] \in es[i][j]
Oopsla == <<"bool", "bv4_base", "bv32", "rational_replicate">>
FirstOf(data, b, n) == LET s == SelectSeq(Against(data, b), LAMBDA r : r.spec = n) IN s[1]
Width(n) == CHOOSE k \in 0..999 : SubSeq(n, 3, Len(n)) = ToString(k)
TexOk(o, data, n) ==
  /\ o.name = (IF n = "ff" THEN "ff-cmp" ELSE n)
  /\ CASE n = "ff" -> TexRowsOk(o.tex, Map(FFTex, Kind(data, "ff_phases")))
       [] n = "bv" -> TexRowsOk(o.tex, Map(BvTex, SortSeq(Kind(data, "bv"), LAMBDA a, b : Width(a.domain) < Width(b.domain))))
       [] n = "oopsla" -> TexRowsOk(o.tex, [i \in 1..4 |-> BaselineTex(FirstOf(data, "oopsla", Oopsla[i]))])
       [] OTHER -> TexRowsOk(o.tex, Map(BaselineTex, SelectSeq(Against(data, n), LAMBDA r : r.spec # "rational_replicate")))
\* what a view shows of the data, whatever was viewed before
ViewOk(s, o, data) ==
  CASE s.op = "data" -> TRUE
    [] s.op = "index" -> IndexOk(o, data)
    [] s.op = "bv" -> BvOk(o, data)
    [] s.op = "ff" -> FFOk(o, data)
    [] s.op = "follow" /\ s.p = "rules" -> RulesOk(o, Named(data)[s.i])
    [] s.op = "follow" -> DetailOk(o, Named(data)[s.i])
    [] s.op = "click" -> TexOk(o, data, s.n)
=============================================================================
