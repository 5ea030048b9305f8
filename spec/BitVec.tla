------------------------------- MODULE BitVec -------------------------------
(* Bit vectors of any width as sequences of bits, least significant first: *)
(* every operation is defined bit by bit, so widths up to 128 need no big  *)
(* numbers.  MCBitVec relates these definitions to arithmetic modulo 2^w.  *)
EXTENDS Cands

Bits(w, b) == [i \in 1..w |-> b]
Zero(w) == Bits(w, 0)
Ones(w) == Bits(w, 1)
One(w)  == [i \in 1..w |-> IF i = 1 THEN 1 ELSE 0]
MinV(w) == [i \in 1..w |-> IF i = w THEN 1 ELSE 0]   \* only the top bit
MaxV(w) == [i \in 1..w |-> IF i = w THEN 0 ELSE 1]   \* all but the top bit

NotB(a)    == [i \in 1..Len(a) |-> 1 - a[i]]
AndB(a, b) == [i \in 1..Len(a) |-> a[i] * b[i]]
OrB(a, b)  == [i \in 1..Len(a) |-> IF a[i] + b[i] > 0 THEN 1 ELSE 0]
XorB(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 2]
\* ripple-carry addition with carry c
AddC(a, b, c) ==
  FoldLeft(LAMBDA acc, i : LET s == a[i] + b[i] + acc.c IN [o |-> Append(acc.o, s % 2), c |-> s \div 2],
           [o |-> <<>>, c |-> c], [i \in 1..Len(a) |-> i]).o
AddB2(a, b) == AddC(a, b, 0)
SubB(a, b)  == AddC(a, NotB(b), 1)
NegV(a)     == SubB(Zero(Len(a)), a)
ShlN(a, n)  == [i \in 1..Len(a) |-> IF i > n THEN a[i - n] ELSE 0]
ShrN(a, n)  == [i \in 1..Len(a) |-> IF i + n <= Len(a) THEN a[i + n] ELSE 0]
MulB(a, b)  == FoldLeft(LAMBDA acc, i : IF b[i] = 1 THEN AddB2(acc, ShlN(a, i - 1)) ELSE acc,
                        Zero(Len(a)), [i \in 1..Len(a) |-> i])
\* the shift amount, the width standing for everything that is not smaller
Amount(b) ==
  LET w == Len(b) IN
  FoldLeft(LAMBDA acc, i : LET n == 2 * acc + b[w + 1 - i] IN IF n >= w THEN w ELSE n, 0, [i \in 1..w |-> i])
ShlB(a, b) == ShlN(a, Amount(b))
ShrB(a, b) == ShrN(a, Amount(b))
LtB(a, b) ==  \* a < b
  LET d == {i \in 1..Len(a) : a[i] # b[i]} IN d # {} /\ a[SetMax(d)] = 0

Bin(o, a, b) ==
  CASE o = "+" -> AddB2(a, b) [] o = "--" -> SubB(a, b) [] o = "*" -> MulB(a, b)
    [] o = "<<" -> ShlB(a, b) [] o = ">>" -> ShrB(a, b)
    [] o = "&" -> AndB(a, b) [] o = "|" -> OrB(a, b) [] o = "^" -> XorB(a, b)
Un(o, a) == IF o = "~" THEN NotB(a) ELSE NegV(a)

\* reading literals: decimal digits or #b and binary digits, modulo 2^w
Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CHOOSE n \in 0..9 : ToString(n) = c]
SmallB(w, n) == [i \in 1..w |-> (n \div (2 ^ (IF i > 5 THEN 5 ELSE i - 1))) % 2]   \* n < 32
DecB(w, s) == FoldLeft(LAMBDA acc, i : AddB2(AddB2(ShlN(acc, 3), ShlN(acc, 1)), SmallB(w, Digit[SubSeq(s, i, i)])),
                       Zero(w), [i \in 1..Len(s) |-> i])
BinB(w, s) == FoldLeft(LAMBDA acc, i : [ShlN(acc, 1) EXCEPT ![1] = Digit[SubSeq(s, i, i)]],
                       Zero(w), [i \in 1..Len(s) |-> i])
LitB(w, s) == IF Len(s) > 2 /\ SubSeq(s, 1, 2) = "#b" THEN BinB(w, SubSeq(s, 3, Len(s))) ELSE DecB(w, s)
IsDec(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in DOMAIN Digit

-----------------------------------------------------------------------------
\* value of a term whose other leaves are given by asg
RECURSIVE EvalB(_, _, _)
EvalB(w, t, asg) ==
  CASE Len(t) = 1 -> IF t[1] \in DOMAIN asg THEN asg[t[1]] ELSE LitB(w, t[1])
    [] Len(t) = 2 -> Un(t[1], EvalB(w, t[2], asg))
    [] Len(t) = 3 -> Bin(t[1], EvalB(w, t[2], asg), EvalB(w, t[3], asg))
\* the values sampled for variables
SampleB(w) == {Zero(w), One(w), Ones(w), MinV(w), AddB2(MinV(w), One(w)), MaxV(w), SubB(MaxV(w), One(w))}
WideVars(t) == {x \in LeavesOf(t) : ~IsDec(x)}

\* a freshly materialised workload over w-bit vectors
WideMatOk(w, ts, d, len) ==
  LET g == FromDump(d)
      subs == UNION {SubT(ts[i]) : i \in 1..Len(ts)}
      vs == UNION {WideVars(t) : t \in subs}
      r == Rec(d)
      at == TLCEval([t \in subs |-> Lookup(g, t)])
      row(i) == [v \in vs |-> r[at[<<v>>]].cv[i]]
      rows == {row(i) : i \in 1..len}
  IN /\ WellFormed(d)
     /\ \A t \in subs : at[t] # NONE
     /\ Cardinality(rows) = len
     /\ len = Cardinality(SampleB(w)) ^ Cardinality(vs)
     /\ \A x \in rows : \A v \in vs : x[v] \in SampleB(w)
     /\ \A t \in subs : \A i \in 1..len : r[at[t]].cv[i] = EvalB(w, t, row(i))

-----------------------------------------------------------------------------
(* Identities that hold at every width (MCBitVec checks small ones).       *)
X == <<"?x">>  Y == <<"?y">>  Z == <<"?z">>  L0 == <<"0">>  L1 == <<"1">>
B2(o, a, b) == <<o, a, b>>
Nt(a) == <<"~", a>>
Ng(a) == <<"-", a>>
Theorems == {
  <<B2("+", X, Y), B2("+", Y, X)>>, <<B2("*", X, Y), B2("*", Y, X)>>,
  <<B2("&", X, Y), B2("&", Y, X)>>, <<B2("|", X, Y), B2("|", Y, X)>>, <<B2("^", X, Y), B2("^", Y, X)>>,
  <<B2("+", X, B2("+", Y, Z)), B2("+", B2("+", X, Y), Z)>>,
  <<B2("&", X, B2("&", Y, Z)), B2("&", B2("&", X, Y), Z)>>,
  <<B2("--", X, X), L0>>, <<B2(">>", X, X), L0>>, <<B2("+", L0, X), X>>, <<B2("|", L0, X), X>>, <<B2("--", X, Y), B2("+", X, Ng(Y))>>, <<Ng(X), B2("+", Nt(X), L1)>>,
  <<Nt(B2("&", X, Y)), B2("|", Nt(X), Nt(Y))>>, <<Nt(B2("|", X, Y)), B2("&", Nt(X), Nt(Y))>>,
  <<B2("^", X, Y), B2("--", B2("|", X, Y), B2("&", X, Y))>>,
  <<B2("+", X, Y), B2("+", B2("^", X, Y), B2("<<", B2("&", X, Y), L1))>>,
  <<B2("+", X, Y), B2("+", B2("^", X, Y), B2("*", <<"2">>, B2("&", X, Y)))>>,
  <<B2("*", X, B2("+", Y, Z)), B2("+", B2("*", X, Y), B2("*", X, Z))>>,
  <<B2("<<", X, L0), X>>, <<B2(">>", X, L0), X>>, <<Ng(Ng(X)), X>>, <<Nt(Nt(X)), X>>,
  <<B2("|", X, Y), B2("+", B2("&", X, Nt(Y)), Y)>>,
  <<B2("<<", L0, X), L0>>, <<B2(">>", L0, X), L0>>,
  <<B2("&", X, Ng(L1)), X>>, <<B2("|", X, L0), X>>, <<B2("^", X, X), L0>>, <<B2("&", X, Nt(X)), L0>>,
  <<B2("<<", B2("+", X, Y), L1), B2("+", B2("<<", X, L1), B2("<<", Y, L1))>>,
  <<B2("+", X, L0), X>>, <<B2("*", X, L1), X>>, <<B2("*", X, L0), L0>>,
  <<B2("<<", B2(">>", B2("<<", X, Y), Y), Y), B2("<<", X, Y)>>,
  <<B2("*", X, Y), B2("+", B2("*", B2("&", X, Y), B2("|", X, Y)), B2("*", B2("&", X, Nt(Y)), B2("&", Nt(X), Y)))>>,
  <<B2("*", B2("+", X, Y), B2("+", X, Y)), B2("+", B2("*", X, X), B2("+", B2("*", Y, Y), B2("*", <<"2">>, B2("*", X, Y))))>>,
  <<B2("&", B2("*", X, B2("+", X, L1)), L1), L0>>,
  <<B2(">>", B2("&", X, Y), Z), B2("&", B2(">>", X, Z), B2(">>", Y, Z))>>,
  <<B2("<<", B2("&", X, Y), Z), B2("&", B2("<<", X, Z), B2("<<", Y, Z))>> }
\* terms with one value whatever their variables are
Ground(t) == WideVars(t) = {}
RECURSIVE Const(_, _)
ConstVal(w, t) == EvalB(w, t, [v \in WideVars(t) |-> Zero(w)])
TooFar(w, t) == Len(t) = 3 /\ t[1] \in {"<<", ">>"} /\ Const(w, t[3]) /\ Amount(ConstVal(w, t[3])) >= w
Const(w, t) == Ground(t) \/ TooFar(w, t)
               \/ (Len(t) > 1 /\ \A i \in 2..Len(t) : Const(w, t[i]))
(* Two terms whose bits depend only on the same bits of the variables are  *)
(* equal when they agree on all-zeros and all-ones; two affine terms are   *)
(* equal when they agree on zeros and on one variable being 1.             *)
RECURSIVE Bitwise(_, _)
Bitwise(w, t) == Const(w, t) \/ Len(t) = 1
                 \/ (t[1] \in {"~", "&", "|", "^"} /\ \A i \in 2..Len(t) : Bitwise(w, t[i]))
RECURSIVE Affine(_, _)
Affine(w, t) ==
  \/ Const(w, t) \/ Len(t) = 1
  \/ t[1] \in {"~", "-", "+", "--"} /\ \A i \in 2..Len(t) : Affine(w, t[i])
  \/ t[1] = "*" /\ \E i \in 2..3 : Const(w, t[i]) /\ Affine(w, t[5 - i])
  \/ t[1] = "<<" /\ Const(w, t[3]) /\ Affine(w, t[2])
Decided(w, r) == (Bitwise(w, r[1]) /\ Bitwise(w, r[2])) \/ (Affine(w, r[1]) /\ Affine(w, r[2]))
\* matching a rule against a theorem, constants by their value
RECURSIVE Inst1(_, _, _, _)
Inst1(w, p, t, m) ==
  IF ~m.ok THEN m
  ELSE IF Len(p) = 1 /\ IsVar(p[1])
  THEN (IF p[1] \in DOMAIN m.s THEN [m EXCEPT !.ok = (m.s[p[1]] = t)] ELSE [m EXCEPT !.s = (p[1] :> t) @@ @])
  ELSE IF Ground(p) /\ Const(w, t) THEN [m EXCEPT !.ok = (EvalB(w, p, <<>>) = ConstVal(w, t))]
  ELSE IF Len(p) # Len(t) \/ p[1] # t[1] THEN [m EXCEPT !.ok = FALSE]
  ELSE FoldLeft(LAMBDA a, i : Inst1(w, p[i], t[i], a), m, [i \in 1..Len(p) - 1 |-> i + 1])
InstanceOf(w, r, th) == Inst1(w, th[2], r[2], Inst1(w, th[1], r[1], [ok |-> TRUE, s |-> <<>>])).ok
IsTheorem(w, r) == r[1] = r[2] \/ \E th \in Theorems : InstanceOf(w, r, th) \/ InstanceOf(w, <<r[2], r[1]>>, th)

(* Sampled assignments for looking for counterexamples at width w; wit is  *)
(* one more assignment, supplied with rules that few assignments refute.   *)
Alt(w, k) == [i \in 1..w |-> IF (i \div k) % 2 = 1 THEN 1 ELSE 0]
SmallLits(r) == {x \in LeavesOf(r[1]) \cup LeavesOf(r[2]) : IsDec(x)}
Probe(w, r) == SampleB(w) \cup {Alt(w, 1), Alt(w, 3), SmallB(w, 3), SmallB(w, 2)}
               \cup UNION {LET b == LitB(w, x) IN {b, NotB(b), AddB2(b, One(w))} : x \in SmallLits(r)}
Refuted(w, r) ==
  LET V == (VarsOf(r[1]) \cup VarsOf(r[2]))
      P == Probe(w, r)
  IN \E a \in [V -> P] : EvalB(w, r[1], a) # EvalB(w, r[2], a)
\* verdict of the validator on a rule: "ok", "bad" or "?"
JudgeWide(w, r, v, wit) ==
  LET no == IF v = "Valid" THEN "bad" ELSE "ok"
      yes == IF v = "Invalid" THEN "bad" ELSE "ok"
  IN IF wit # <<>> /\ EvalB(w, r[1], wit) # EvalB(w, r[2], wit) THEN no
     ELSE IF IsTheorem(w, r) THEN yes
     ELSE IF Refuted(w, r) THEN no
     ELSE IF Decided(w, r) THEN yes
     ELSE "?"
=============================================================================
