-------------------------------- MODULE Expr --------------------------------
(* Conditions of device templates: grammar and meaning. Texts are sequences of character codes.                     *)
(*   expr := or ; or := and ("||" and)* ; and := eq ("&&" eq)* ; eq := rel (("=="|"!=") rel)* ;                      *)
(*   rel := prim ((">"|"<"|">="|"<=") prim)* ; prim := number | ident | "isDefined(" ident ")" | "(" expr ")"        *)
(* A parameter without a value is undefined: a comparison with it is false, "!=" with it is true, "&&" and "||"      *)
(* of it are false.                                                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Digit(c) == c >= 48 /\ c <= 57
Alpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IdentChar(c) == Digit(c) \/ Alpha(c) \/ c = 95
IsDefinedName == <<105, 115, 68, 101, 102, 105, 110, 101, 100>>

---- \* tokens: [k, v]; k is the operator, a bracket, "num", "id" or "end"
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Two(s, i) ==
    CASE At(s, i) = 61 /\ At(s, i + 1) = 61 -> "=="
      [] At(s, i) = 33 /\ At(s, i + 1) = 61 -> "!="
      [] At(s, i) = 60 /\ At(s, i + 1) = 61 -> "<="
      [] At(s, i) = 62 /\ At(s, i + 1) = 61 -> ">="
      [] At(s, i) = 124 /\ At(s, i + 1) = 124 -> "||"
      [] At(s, i) = 38 /\ At(s, i + 1) = 38 -> "&&"
      [] OTHER -> ""
One(s, i) == CASE At(s, i) = 60 -> "<" [] At(s, i) = 62 -> ">" [] At(s, i) = 40 -> "(" [] At(s, i) = 41 -> ")" [] OTHER -> ""
RECURSIVE EndOf(_, _, _)
EndOf(s, i, digits) == IF i <= Len(s) /\ (IF digits THEN Digit(s[i]) ELSE IdentChar(s[i])) THEN EndOf(s, i + 1, digits) ELSE i
RECURSIVE Number(_)
Number(d) == IF d = <<>> THEN 0 ELSE Number(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)] - 48
Failed == <<[k |-> "error", v |-> <<>>]>>
RECURSIVE Lex(_, _, _)
Lex(s, i, acc) ==
    IF i > Len(s) THEN Append(acc, [k |-> "end", v |-> <<>>])
    ELSE IF Two(s, i) # "" THEN Lex(s, i + 2, Append(acc, [k |-> Two(s, i), v |-> <<>>]))
    ELSE IF One(s, i) # "" THEN Lex(s, i + 1, Append(acc, [k |-> One(s, i), v |-> <<>>]))
    ELSE IF Digit(s[i]) \/ (s[i] = 45 /\ Digit(At(s, i + 1))) THEN
        LET j == EndOf(s, i + 1, TRUE) IN Lex(s, j, Append(acc, [k |-> "num", v |-> SubSeq(s, i, j - 1)]))
    ELSE IF Alpha(s[i]) THEN LET j == EndOf(s, i, FALSE) IN Lex(s, j, Append(acc, [k |-> "id", v |-> SubSeq(s, i, j - 1)]))
    ELSE Failed

---- \* trees: [op, l, r, v]
Leaf(op, v) == [op |-> op, l |-> <<>>, r |-> <<>>, v |-> v]
Levels == <<{"||"}, {"&&"}, {"==", "!="}, {"<", ">", "<=", ">="}>>
No(i) == [ok |-> FALSE, t |-> Leaf("none", <<>>), i |-> i]
RECURSIVE Prim(_, _), Level(_, _, _), Rest(_, _, _)
\* parse from token i; gives the tree and the next token
Prim(ts, i) ==
    LET k == ts[i].k IN
    IF k = "num" THEN [ok |-> TRUE, t |-> Leaf("num", ts[i].v), i |-> i + 1]
    ELSE IF k = "id" /\ ts[i + 1].k = "(" THEN
        IF ts[i].v = IsDefinedName /\ ts[i + 2].k = "id" /\ ts[i + 3].k = ")"
        THEN [ok |-> TRUE, t |-> Leaf("def", ts[i + 2].v), i |-> i + 4] ELSE No(i)
    ELSE IF k = "id" THEN [ok |-> TRUE, t |-> Leaf("id", ts[i].v), i |-> i + 1]
    ELSE IF k = "(" THEN
        LET e == Level(ts, i + 1, 1) IN
        IF e.ok /\ ts[e.i].k = ")" THEN [ok |-> TRUE, t |-> e.t, i |-> e.i + 1] ELSE No(i)
    ELSE No(i)
Level(ts, i, n) ==
    IF n > 4 THEN Prim(ts, i)
    ELSE LET a == Level(ts, i, n + 1) IN IF a.ok THEN Rest(ts, a, n) ELSE a
Rest(ts, a, n) ==
    IF ts[a.i].k \in Levels[n] THEN
        LET b == Level(ts, a.i + 1, n + 1) IN
        IF b.ok THEN Rest(ts, [ok |-> TRUE, t |-> [op |-> ts[a.i].k, l |-> a.t, r |-> b.t, v |-> <<>>], i |-> b.i], n) ELSE b
    ELSE a
Parse(s) ==
    LET ts == Lex(s, 1, <<>>) IN
    IF ts = Failed THEN No(1)
    ELSE LET e == Level(ts, 1, 1) IN IF e.ok /\ ts[e.i].k = "end" THEN e ELSE No(1)

---- \* meaning; a value is <<>> (undefined) or <<number>>
B(b) == <<IF b THEN 1 ELSE 0>>
Lookup(ps, name) == LET S == {i \in 1..Len(ps): ps[i][1] = name} IN IF S = {} THEN <<>> ELSE <<ps[CHOOSE i \in S: TRUE][2]>>
RECURSIVE Eval(_, _)
Eval(t, ps) ==
    CASE t.op = "num" -> <<IF t.v[1] = 45 THEN -Number(Tail(t.v)) ELSE Number(t.v)>>
      [] t.op = "id" -> Lookup(ps, t.v)
      [] t.op = "def" -> B(Lookup(ps, t.v) # <<>>)
      [] OTHER ->
        LET a == Eval(t.l, ps)
            b == Eval(t.r, ps)
        IN  IF a = <<>> \/ b = <<>> THEN B(t.op = "!=")
            ELSE B(CASE t.op = "==" -> a[1] = b[1] [] t.op = "!=" -> a[1] # b[1] [] t.op = "<" -> a[1] < b[1]
                     [] t.op = ">" -> a[1] > b[1] [] t.op = "<=" -> a[1] <= b[1] [] t.op = ">=" -> a[1] >= b[1]
                     [] t.op = "&&" -> a[1] # 0 /\ b[1] # 0 [] t.op = "||" -> a[1] # 0 \/ b[1] # 0)
Holds(t, ps) == LET v == Eval(t, ps) IN v # <<>> /\ v[1] # 0
RECURSIVE Deps(_)
Deps(t) == CASE t.op = "num" -> {} [] t.op \in {"id", "def"} -> {t.v} [] OTHER -> Deps(t.l) \cup Deps(t.r)
=============================================================================
