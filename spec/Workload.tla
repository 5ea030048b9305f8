----------------------------- MODULE Workload -----------------------------
(* Workloads: registers holding term lists, built by set, plug, append and *)
(* filter.  The state of the abstract machine is the denotation `den` of   *)
(* every register: the explicit list of terms obtained by doing each       *)
(* operation naively.                                                      *)
EXTENDS Sexp

RECURSIVE Test(_, _)
HasMatch(p, t) == \E u \in Subterms(t) : Matches(p, u)
Test(f, t) ==
  CASE f.k = "lt"       -> Measure(t, f.m) < f.n
    [] f.k = "eq"       -> Measure(t, f.m) = f.n
    [] f.k = "contains" -> HasMatch(f.p, t)
    [] f.k = "excludes" -> ~HasMatch(f.p, t)
    [] f.k = "canon"    -> IsCanon(t, f.s)
    [] f.k = "and"      -> \A i \in 1..Len(f.fs) : Test(f.fs[i], t)
    [] f.k = "or"       -> \E i \in 1..Len(f.fs) : Test(f.fs[i], t)
    [] f.k = "inv"      -> ~Test(f.f, t)

-----------------------------------------------------------------------------
(* Denotations of the builder operations on explicit lists. *)
DPlug(ts, n, ps) == FlattenSeq([i \in 1..Len(ts) |-> Plug(ts[i], n, ps)])
DFilter(ts, f)   == SelectSeq(ts, LAMBDA t : Test(f, t))
DAppend(a, b)    == a \o b
DSubst(ts, ss, n) == FlattenSeq([j \in 1..Len(ss) |->
                        [i \in 1..Len(ts) |-> Replace(ts[i], n, ss[j])]])

(* Terms derivable from grammar ts (hole a) with measure <= n, one entry   *)
(* per derivation.  Every recursive production increases the measure, so   *)
(* n+1 unfoldings from nothing reach the fixpoint.                         *)
RECURSIVE DerivN(_, _, _, _, _)
DerivN(ts, a, m, n, k) ==
  IF k = 0 THEN <<>>
  ELSE SelectSeq(DPlug(ts, a, DerivN(ts, a, m, n, k-1)), LAMBDA t : Measure(t, m) <= n)
DIter(ts, a, m, n) == DerivN(ts, a, m, n, n + 1)

-----------------------------------------------------------------------------
(* The builder of the implementation, as designed: lazy expressions that   *)
(* are rewritten while being built.                                        *)
ESet(ts)          == [k |-> "set", ts |-> ts]
EPlugRaw(w, n, p) == [k |-> "plug", w |-> w, n |-> n, p |-> p]
EFilterRaw(f, w)  == [k |-> "filter", f |-> f, w |-> w]
EAppendRaw(ws)    == [k |-> "append", ws |-> ws]

RECURSIVE Force(_)
Force(e) == CASE e.k = "set"    -> e.ts
              [] e.k = "plug"   -> DPlug(Force(e.w), e.n, Force(e.p))
              [] e.k = "filter" -> DFilter(Force(e.w), e.f)
              [] e.k = "append" -> FlattenSeq([i \in 1..Len(e.ws) |-> Force(e.ws[i])])

RECURSIVE Monotonic(_)
Monotonic(f) == \/ f.k \in {"lt", "excludes"}
                \/ f.k = "and" /\ \A i \in 1..Len(f.fs) : Monotonic(f.fs[i])

SubsumedBy(f, fs) == f.k = "lt" /\ \E i \in 1..Len(fs) :
                        fs[i].k = "lt" /\ fs[i].m = f.m /\ f.n >= fs[i].n
FAnd(f, g) ==
  LET all == CASE f.k = "and" /\ g.k = "and" -> f.fs \o g.fs
               [] f.k = "and" -> Append(f.fs, g)
               [] g.k = "and" -> Append(g.fs, f)
               [] OTHER -> <<f, g>>
  IN [k |-> "and", fs |-> FoldLeft(LAMBDA acc, x : IF SubsumedBy(x, acc) THEN acc
                                                   ELSE Append(acc, x), <<>>, all)]
RECURSIVE EFilter(_, _)
EFilter(e, f) ==
  CASE e.k = "plug" /\ Monotonic(f) -> EFilterRaw(f, EPlugRaw(e.w, e.n, EFilter(e.p, f)))
    [] e.k = "filter" -> EFilter(e.w, FAnd(e.f, f))
    [] OTHER -> EFilterRaw(f, e)
EPlug(e, n, p) ==
  IF p.k = "set" /\ Len(p.ts) = 0 THEN EFilter(e, [k |-> "excludes", p |-> <<"=", n>>])
  ELSE EPlugRaw(e, n, p)
EAppend(a, b) ==
  CASE a.k = "set" /\ b.k = "set" -> ESet(a.ts \o b.ts)
    [] a.k = "append" /\ b.k = "append" -> EAppendRaw(a.ws \o b.ws)
    [] a.k = "append" -> EAppendRaw(Append(a.ws, b))
    [] b.k = "append" -> EAppendRaw(Append(b.ws, a))
    [] OTHER -> EAppendRaw(<<a, b>>)

\* the grammar of terms over n operators of the arities 1..n
BaseLang(n) == << <<"VAR">>, <<"VAL">> >> \o
  [i \in 1..n |-> << "(", <<"OP" \o ToString(i)>> >> \o [j \in 1..i |-> <<"EXPR">>]]
-----------------------------------------------------------------------------
(* Transitions: the result allowed for each builder step, given registers. *)
(* s is the step [op, d, ...], regs the register contents (term lists).    *)
Denote(s, regs) ==
  CASE s.op = "new"    -> s.ts
    [] s.op = "base"   -> BaseLang(s.n)
    [] s.op = "plug"   -> DPlug(regs[s.w], s.n, regs[s.p])
    [] s.op = "append" -> DAppend(regs[s.a], regs[s.b])
    [] s.op = "filter" -> DFilter(regs[s.w], s.f)
    [] s.op = "iter"   -> DIter(regs[s.w], s.a, s.m, s.n)
    [] s.op = "subst"  -> DSubst(regs[s.w], regs[s.s], s.a)
    [] s.op = "file"   -> regs[s.w]
\* order is part of the contract of these steps
Ordered(s) == s.op \in {"new", "filter", "file"}
Allowed(s, regs, out) == IF Ordered(s) THEN out = Denote(s, regs)
                         ELSE SameBag(out, Denote(s, regs))
=============================================================================
