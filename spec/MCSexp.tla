------------------------------- MODULE MCSexp -------------------------------
(* Theorems about terms, plugging, patterns and canonical forms, checked   *)
(* for every term of the bounded universe; each term also becomes a        *)
(* history that is replayed through the implementation.                    *)
EXTENDS Workload, Json, IOUtils
DEPTH == atoi(IOEnv.DEPTH)
WIDTH == atoi(IOEnv.WIDTH)
KIND  == IOEnv.KIND
VARIABLE t
AtomSet == CASE KIND = "canon" -> {"x", "y", "z", "k"} [] KIND = "text" -> {"x", "?ab", "-"} [] OTHER -> {"x", "a", "f"}
RECURSIVE Terms(_)
Terms(d) == IF d = 1 THEN {Atom(x) : x \in AtomSet}
            ELSE Terms(1) \cup UNION {{MkList(s) : s \in [1..w -> Terms(d-1)]} : w \in 0..WIDTH}
Init == t \in Terms(DEPTH)
Next == FALSE /\ t' = t
Spec == Init /\ [][Next]_t

Syms == <<"x", "y", "z">>
Perms3 == {f \in [{"x","y","z"} -> {"x","y","z"}] : Cardinality({f[v] : v \in {"x","y","z"}}) = 3}
Orbit == {Rename(t, f) : f \in Perms3}
CanonUnique == /\ Cardinality({u \in Orbit : IsCanon(u, Syms)}) = 1
               /\ CanonOf(t, Syms) \in Orbit
               /\ IsCanon(CanonOf(t, Syms), Syms)
               /\ (IsCanon(t, Syms) <=> CanonOf(t, Syms) = t)
               /\ \A u \in Orbit : CanonOf(u, Syms) = CanonOf(t, Syms)

Pegs == << Atom("a"), MkList(<<Atom("f"), Atom("x")>>), Atom("b") >>
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
PlugCross == /\ \A n \in 0..3 : Len(Plug(t, "x", SubSeq(Pegs, 1, n))) = Pow(n, Occ(t, "x"))
             /\ NoDup(Plug(t, "x", Pegs)) 
             /\ (Plug(t, "x", <<>>) = <<>>) <=> HasMatch(<<"=", "x">>, t)
             /\ Occ(t, "x") = 0 => Plug(t, "x", Pegs) = <<t>>
             /\ \A i \in 1..3 : Replace(t, "x", Pegs[i]) \in SeqSet(Plug(t, "x", Pegs))
Sizes == /\ \A u \in Subterms(t), m \in {"Atoms", "Lists", "Depth"} : Measure(u, m) <= Measure(t, m)
         /\ Measure(t, "Depth") <= Measure(t, "Lists") + 1
         /\ Cardinality(AtomsOf(t)) <= Measure(t, "Atoms")

(* ------------------------- uniform replacement ------------------------- *)
Subs == << Atom("a"), MkList(<<Atom("f"), Atom("x")>>), Atom("x"), MkList(<<>>) >>
Uniform == /\ \A i \in 1..4 : /\ Measure(Replace(t, "x", Subs[i]), "Atoms")
                                     = Measure(t, "Atoms") + Occ(t, "x") * (Measure(Subs[i], "Atoms") - 1)
                              /\ Occ(t, "x") = 0 => Replace(t, "x", Subs[i]) = t
           /\ Replace(t, "x", Subs[3]) = t
           \* uniform and independent replacement agree for at most one occurrence
           /\ Occ(t, "x") <= 1 => \A n \in 0..4 : SameBag(DSubst(<<t>>, SubSeq(Subs, 1, n), "x"),
                                        IF Occ(t, "x") = 0 THEN [i \in 1..n |-> t] ELSE Plug(t, "x", SubSeq(Subs, 1, n)))
           /\ \A i \in 1..4 : SeqSet(DSubst(<<t>>, Subs, "x")) \subseteq SeqSet(Plug(t, "x", Subs)) \/ Occ(t, "x") = 0

(* ---------------------- every way of writing a term -------------------- *)
\* style: blanks put (between items, after "(", before ")")
RECURSIVE Chars(_)
Chars(w) == IF w = "" THEN <<>> ELSE <<SubSeq(w, 1, 1)>> \o Chars(SubSeq(w, 2, Len(w)))
RECURSIVE Write(_, _)
Write(u, s) ==
  IF ~IsList(u) THEN Chars(u[1])
  ELSE <<"(">> \o s[2] \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE s[1]) \o Write(u[i+1], s), <<>>, [i \in 1..NKids(u) |-> i])
       \o s[3] \o <<")">>
Styles == << <<<<" ">>, <<>>, <<>>>>, <<<<" ", " ">>, <<" ">>, <<>>>>, <<<<" ">>, <<>>, <<" ">>>>, <<<<" ">>, <<" ", " ">>, <<" ", " ">>>> >>
ReadBack == \A i \in 1..Len(Styles) : ParseAll(Write(t, Styles[i])) = <<t>>
\* two terms one after the other are read as two
ReadTwo == ParseAll(Write(t, Styles[1]) \o <<" ">> \o Write(t, Styles[3])) = <<t, t>>

Flt(k) == [op |-> "filter", d |-> 2, w |-> 1, f |-> k]
Hist == CASE KIND = "plug" ->
          << [op |-> "new", d |-> 1, ts |-> <<t>>],
             [op |-> "new", d |-> 2, ts |-> <<>>],
             [op |-> "new", d |-> 3, ts |-> <<Pegs[2]>>],
             [op |-> "new", d |-> 4, ts |-> <<Pegs[1], Pegs[2]>>],
             [op |-> "plug", d |-> 5, w |-> 1, n |-> "x", p |-> 2],
             [op |-> "plug", d |-> 5, w |-> 1, n |-> "x", p |-> 3],
             [op |-> "plug", d |-> 5, w |-> 1, n |-> "x", p |-> 4],
             [op |-> "plug", d |-> 6, w |-> 5, n |-> "a", p |-> 3],
             [op |-> "plug", d |-> 6, w |-> 5, n |-> "a", p |-> 2],
             [op |-> "plug", d |-> 6, w |-> 5, n |-> "f", p |-> 1] >>
      [] KIND = "subst" ->
          << [op |-> "new", d |-> 1, ts |-> <<t, Atom("a")>>] >> \o
          FlattenSeq([n \in 1..5 |-> << [op |-> "new", d |-> 2, ts |-> SubSeq(Subs, 1, n - 1)],
                                        [op |-> "subst", d |-> 3, w |-> 1, s |-> 2, a |-> "x"] >>]) \o
          << [op |-> "subst", d |-> 4, w |-> 3, s |-> 1, a |-> "f"], [op |-> "subst", d |-> 5, w |-> 1, s |-> 1, a |-> "x"] >>
      [] KIND = "text" ->
          << [op |-> "print", t |-> t] >> \o [i \in 1..Len(Styles) |-> [op |-> "parse", cs |-> Write(t, Styles[i])]] \o
          << [op |-> "new", d |-> 1, ts |-> <<t, Atom("k"), t>>], [op |-> "file", d |-> 2, w |-> 1],
             [op |-> "new", d |-> 3, ts |-> <<t>>], [op |-> "file", d |-> 4, w |-> 3, over |-> 1],
             [op |-> "new", d |-> 5, ts |-> <<>>], [op |-> "file", d |-> 6, w |-> 5, over |-> 2] >>
      [] KIND = "canon" ->
          << [op |-> "new", d |-> 1, ts |-> <<t>>],
             Flt([k |-> "canon", s |-> Syms]), Flt([k |-> "canon", s |-> <<"z", "x">>]),
             Flt([k |-> "canon", s |-> <<"y">>]), Flt([k |-> "canon", s |-> <<>>]),
             Flt([k |-> "canon", s |-> <<"x", "k", "y">>]) >>
      [] KIND = "filter" ->
          << [op |-> "new", d |-> 1, ts |-> <<t>>] >> \o
          [i \in 1..15 |-> Flt([k |-> IF i % 2 = 0 THEN "lt" ELSE "eq",
                                m |-> <<"Atoms", "Lists", "Depth">>[(i % 3) + 1], n |-> (i \div 3) + 1])] \o
          << Flt([k |-> "contains", p |-> <<"?", "v">>]),
             Flt([k |-> "contains", p |-> <<"*">>]),
             Flt([k |-> "contains", p |-> <<"(">>]),
             Flt([k |-> "contains", p |-> <<"(", <<"?", "v">>, <<"?", "v">>>>]),
             Flt([k |-> "contains", p |-> <<"(", <<"?", "v">>, <<"?", "w">>>>]),
             Flt([k |-> "contains", p |-> <<"(", <<"?", "v">>, <<"(", <<"?", "v">>>>>>]),
             Flt([k |-> "contains", p |-> <<"(", <<"(", <<"*">>, <<"?", "v">>>>, <<"?", "v">>>>]),
             Flt([k |-> "contains", p |-> <<"(", <<"(", <<"?", "w">>, <<"?", "v">>>>, <<"(", <<"?", "v">>, <<"?", "w">>>>>>]),
             Flt([k |-> "excludes", p |-> <<"(", <<"*">>, <<"*">>>>]),
             Flt([k |-> "excludes", p |-> <<"(", <<"=", "x">>, <<"?", "v">>>>]),
             Flt([k |-> "inv", f |-> [k |-> "excludes", p |-> <<"=", "f">>]]) >>
Emit == PrintT(ToJson(Hist))
=============================================================================
