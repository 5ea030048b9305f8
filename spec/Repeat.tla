------------------------------- MODULE Repeat -------------------------------
(* Every answer of the library is a function of what it is computed from.  *)
(* The state remembers, for each e-graph register, how its content came    *)
(* about (its provenance), and every answer given so far together with the *)
(* provenance of all that went into it.  An answer given again must be the *)
(* same, whatever was computed in between.                                 *)
EXTENDS Naturals, Sequences, FiniteSets
Has(f, k) == k \in DOMAIN f
\* calls that fill a register, and the registers a call reads
Fills(c) == c.op \in {"build", "add", "union", "mat", "run"}
Reads(c) == CASE c.op = "run" -> <<c.g>>
              [] c.op \in {"add", "union"} -> <<c.d>>
              [] c.op = "xc" -> <<c.a, c.b>>
              [] c.op \in {"cm", "fm"} -> <<c.g>>
              [] OTHER -> <<>>
\* which registers are meant is no part of a computation
Names(c) == {"d"} \cup (CASE c.op = "run" -> {"g"} [] c.op = "xc" -> {"a", "b"} [] c.op \in {"cm", "fm"} -> {"g"} [] OTHER -> {})
Prov(prov, c) == [args |-> [k \in (DOMAIN c) \ Names(c) |-> c[k]],
                  from |-> [i \in 1..Len(Reads(c)) |-> prov[Reads(c)[i]]]]
NewProv(prov, c) == IF Fills(c) THEN [prov EXCEPT ![c.d] = Prov(prov, c)] ELSE prov
\* seen: the answers so far, as a sequence of pairs
Same(seen, p, o) == \A i \in 1..Len(seen) : (seen[i][1] = p) => (seen[i][2] = o)
=============================================================================
