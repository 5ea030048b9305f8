------------------------------ MODULE MCScrape ------------------------------
(* The collector as a scanner: it reads one token after the other, skips   *)
(* comments, counts parentheses inside a call and splits the arguments at  *)
(* the commas of the call itself.  Over all small files it must find the   *)
(* calls the file was made of.                                             *)
EXTENDS Scrape, Json, IOUtils
LEVEL == atoi(IOEnv.LEVEL)
X == <<"x">>
Exprs == << X, <<"c0", "+", "y">>, <<"min(", "x", ",", "y", ")">>, <<"(", "x", ")", "<", "(", "y", ")">>,
            <<"select(", "min(", "x", ",", "y", ")", ",", "(", "y", ",", "x", ")", ",", "z", ")">>, <<"broadcast(", "x", ",", "c0", ")">>, <<"x", "%", "y">> >>
NE == IF LEVEL = 1 THEN 5 ELSE 7
Rw(as) == [k |-> "rw", args |-> as]
No(ts) == [k |-> "noise", toks |-> ts]
Com(ts) == [k |-> "com", toks |-> ts]
Items == {Rw(<<Exprs[i], Exprs[j]>>) : i \in 1..7, j \in 1..NE} \cup {Rw(<<Exprs[i], X, Exprs[j]>>) : i \in 1..3, j \in 1..NE}
         \cup {No(<<"||">>), No(<<"f(", "x", ",", "(", "y", ")", ")">>), Com(<<"rewrite(", "x", ",", "y", ")">>), Com(<<"rewrite(", "x", ",">>), Com(<<")">>)}
VARIABLES file, todo, mode, depth, args, cur, found
vars == <<file, todo, mode, depth, args, cur, found>>
EOL == "\n"
Toks(it) == CASE it.k = "rw" -> <<"rewrite(">> \o it.args[1] \o <<",">> \o it.args[2] \o (IF Len(it.args) = 3 THEN <<",">> \o it.args[3] ELSE <<>>) \o <<")">>
              [] it.k = "com" -> <<"//">> \o it.toks \o <<EOL>>
              [] OTHER -> it.toks
\* a comment may also stand in the middle of an item, a line may end anywhere
Breaks(ts, c) == {ts} \cup {SubSeq(ts, 1, p) \o c \o SubSeq(ts, p + 1, Len(ts)) : p \in 1..(Len(ts) - 1)}
Init == /\ \E a \in Items, b \in Items, c \in {<<EOL>>, <<"//", "rewrite(", "z", ")", EOL>>} :
             \E s \in (IF a.k = "com" THEN {Toks(a)} ELSE Breaks(Toks(a), c)) :
               file = <<a, b>> /\ todo = s \o Toks(b)
        /\ mode = "out" /\ depth = 0 /\ args = <<>> /\ cur = <<>> /\ found = <<>>
T == Head(todo)
Opens(t) == t \in {"(", "f(", "min(", "select(", "broadcast("}
Read == /\ todo # <<>> /\ todo' = Tail(todo) /\ file' = file
        /\ CASE mode \in {"outcom", "incom"} ->
                  /\ mode' = (IF T = EOL THEN IF mode = "outcom" THEN "out" ELSE "in" ELSE mode)
                  /\ UNCHANGED <<depth, args, cur, found>>
             [] T = "//" -> mode' = (IF mode = "out" THEN "outcom" ELSE "incom") /\ UNCHANGED <<depth, args, cur, found>>
             [] T = EOL -> UNCHANGED <<mode, depth, args, cur, found>>
             [] mode = "out" -> IF T = "rewrite(" THEN mode' = "in" /\ depth' = 1 /\ args' = <<>> /\ cur' = <<>> /\ UNCHANGED found
                                ELSE UNCHANGED <<mode, depth, args, cur, found>>
             [] T = ")" /\ depth = 1 -> /\ mode' = "out" /\ depth' = 0 /\ args' = <<>> /\ cur' = <<>>
                                        /\ found' = Append(found, Append(args, cur))
             [] T = "," /\ depth = 1 -> args' = Append(args, cur) /\ cur' = <<>> /\ UNCHANGED <<mode, depth, found>>
             [] OTHER -> /\ cur' = Append(cur, T) /\ UNCHANGED <<mode, args, found>>
                         /\ depth' = (IF T = ")" THEN depth - 1 ELSE IF Opens(T) THEN depth + 1 ELSE depth)
Next == Read
Done == todo = <<>>
Right == Done => found = [i \in 1..Len(Calls(file)) |-> Calls(file)[i].args] /\ mode = "out"
Balanced == (mode = "in" => depth >= 1) /\ (mode = "out" => depth = 0 /\ args = <<>>)
\* every supported call ends up in exactly one of the two lists
Split == Done => LET fs == << [name |-> "a", items |-> file] >> IN
   Len(Listed(fs, 2)) + Len(Listed(fs, 3)) = Cardinality({i \in 1..Len(Calls(file)) : Supported(Calls(file)[i])})
Emit == (todo = Toks(file[1]) \o Toks(file[2])) => PrintT(ToJson(file))
=============================================================================
