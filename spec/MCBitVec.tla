------------------------------ MODULE MCBitVec ------------------------------
(* The bit-by-bit definitions are arithmetic modulo 2^w, for all operands  *)
(* of all small widths; the listed theorems hold there.                    *)
EXTENDS BitVec, IOUtils
MaxW == CHOOSE n \in 1..8 : ToString(n) = IOEnv.WIDTH
VARIABLES w, a, b, th
vars == <<w, a, b, th>>
RECURSIVE Nat2(_)
Nat2(x) == IF x = <<>> THEN 0 ELSE x[1] + 2 * Nat2(Tail(x))
OfNat(n, k) == [i \in 1..k |-> (n \div (2 ^ (i - 1))) % 2]
Lang(k) == CASE k = 1 -> "bv1" [] k = 2 -> "bv2" [] k = 3 -> "bv3" [] k = 4 -> "bv4" [] OTHER -> "bv8"
Init == /\ w \in 1..MaxW /\ a \in 0..(2 ^ w - 1) /\ b \in 0..(2 ^ w - 1)
        /\ th \in {<<>>} \cup (IF w <= 3 /\ b = 0 THEN Theorems ELSE {})
Next == UNCHANGED vars
Bins == {"+", "--", "*", "<<", ">>", "&", "|", "^"}
Arith == /\ \A o \in Bins : Nat2(Bin(o, OfNat(a, w), OfNat(b, w))) = BvOp(w, o, <<a, b>>)
         /\ \A o \in {"~", "-"} : Nat2(Un(o, OfNat(a, w))) = BvOp(w, o, <<a>>)
         /\ LtB(OfNat(a, w), OfNat(b, w)) = (a < b)
         /\ DecB(w, ToString(a + 2 ^ w * b)) = OfNat(a, w)
         /\ Nat2(MinV(w)) = 2 ^ (w - 1) /\ Nat2(MaxV(w)) = 2 ^ (w - 1) - 1 /\ Nat2(Ones(w)) = 2 ^ w - 1
         /\ {Nat2(v) : v \in SampleB(w)} = {0, 1 % 2 ^ w, 2 ^ w - 1, 2 ^ (w-1), (2 ^ (w-1) + 1) % 2 ^ w, 2 ^ (w-1) - 1, (2 ^ (w-1) - 2) % 2 ^ w}
\* the two decided classes really are decided by the probed values
Lv == {X, Y, <<"0">>, <<"1">>, <<"2">>}
Tm(os, ts) == ts \cup {<<o, t>> : o \in os \cap {"~", "-"}, t \in ts}
              \cup {<<o, s, t>> : o \in os \ {"~", "-"}, s \in ts, t \in Lv}
SameClass(ts, cls) ==
  LET V == {"?x", "?y"}
      S == {OfNat(n, w) : n \in 0..(2 ^ w - 1)}
      P == [V -> {Zero(w), One(w), Ones(w)}]
      F == [V -> S]
      good == {t \in ts : IF cls = 0 THEN Bitwise(w, t) ELSE Affine(w, t)}
      sig == [t \in good |-> [f \in P |-> EvalB(w, t, f)]]
      full == [t \in good |-> [f \in F |-> EvalB(w, t, f)]]
  IN Cardinality({sig[t] : t \in good}) = Cardinality({full[t] : t \in good})
ClassesExact == (th = <<>> /\ a = 0 /\ b = 0 /\ w <= 3) =>
             /\ SameClass(Tm({"~", "&", "|", "^", "<<"}, Tm({"~", "&", "|", "^", ">>"}, Lv)), 0)
             /\ SameClass(Tm({"~", "-", "+", "--", "*", "<<"}, Tm({"-", "+", "*", "<<", ">>"}, Lv)), 1)
TheoremsHoldAll ==
  th = <<>> \/ a # 0 \/ LET V == VarsOf(th[1]) \cup VarsOf(th[2])
                   S == {OfNat(n, w) : n \in 0..(2 ^ w - 1)}
               IN \A f \in [V -> S] : EvalB(w, th[1], f) = EvalB(w, th[2], f)
=============================================================================
