---------------------------- MODULE TraceBitVec ----------------------------
(* Recorded bit-vector calculations checked against BitVec.                *)
EXTENDS BitVec, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
vars == <<h, l, ok>>
Init == h \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
H == Traces[h]
Steps == H.steps
S == Steps[l].in
O == Steps[l].out
W == S.w
\* a recorded value [w bits, whether higher bits are set]
Val(v, x) == v = <<x, 0>>
Undecided == PrintT(<<"UNDECIDED", h, l>>)
Judge == CASE S.op = "tab" -> \A i \in 1..Len(S.a) : \A j \in 1..Len(S.b) : Val(O.v[i][j], Bin(S.o, S.a[i], S.b[j]))
           [] S.op = "un" -> \A i \in 1..Len(S.a) : Val(O.v[i], Un(S.o, S.a[i]))
           [] S.op = "consts" -> /\ Val(O.zero, Zero(W)) /\ Val(O.ones, Ones(W)) /\ Val(O.neg1, Ones(W))
                                 /\ Val(O.min, MinV(W)) /\ Val(O.max, MaxV(W))
           \* the constructor and the parser truncate
           [] S.op = "new" -> \A i \in 1..Len(S.a) : Val(O.v[i], SubSeq(S.a[i], 1, W)) /\ Val(O.f[i], SubSeq(S.a[i], 1, W))
           [] S.op = "lit" -> \A i \in 1..Len(S.t) : Val(O.v[i], LitB(W, S.t[i]))
           [] S.op = "show" -> \A i \in 1..Len(S.a) : DecB(W, O.t[i]) = S.a[i] /\ IsDec(O.t[i])
           [] S.op = "cmp" -> \A i \in 1..Len(S.a) : O.v[i] = (IF S.a[i] = S.b[i] THEN 0 ELSE IF LtB(S.a[i], S.b[i]) THEN -1 ELSE 1)
           [] S.op = "rnd" -> \A i \in 1..Len(O.v) : Len(O.v[i][1]) = W /\ O.v[i][2] = 0
           [] S.op = "mat" -> WideMatOk(W, S.ts, O.g, O.len)
           [] S.op = "val" ->
                \* two calls near the solver's time limit may differ, but a refuted rule is
                \* never valid and a theorem never invalid
                LET wit == IF "wit" \in DOMAIN S THEN [x \in {S.wit[i][1] : i \in 1..Len(S.wit)} |-> S.wit[CHOOSE i \in 1..Len(S.wit) : S.wit[i][1] = x][2]]
                           ELSE <<>>
                    j == JudgeWide(W, S.rule, O.v, wit)
                    k == IF O.is = <<TRUE>> THEN JudgeWide(W, S.rule, "Valid", wit) ELSE j
                IN /\ j # "bad" /\ k # "bad" /\ (j = "?" => Undecided)
                   /\ (O.is = <<TRUE>> => O.v # "Invalid")
                   /\ (O.is = <<FALSE>> /\ O.v = "Valid" => O.again # "Valid")
Do  == O.r = "ok" /\ ok' = Judge
Bad == O.r \in {"panic", "hang", "crash"} /\ ok' = FALSE
Next == /\ ok /\ l <= Len(Steps)
        /\ Do \/ Bad
        /\ l' = l + 1 /\ h' = h
Conforms == ok
=============================================================================
