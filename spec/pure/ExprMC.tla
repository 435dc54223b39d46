------------------------------- MODULE ExprMC -------------------------------
(* Every tree up to a size, written out with the brackets its shape needs, parses to itself; brackets that are not   *)
(* needed change nothing; a text cut short or with a doubled operator is no condition; De Morgan where all is        *)
(* defined; a condition without "!=", isDefined or numbers is false while every parameter is undefined.         *)
EXTENDS Expr
CONSTANTS Depth, Ops
VARIABLES t, d
vars == <<t, d>>
Leaves == {Leaf("num", <<49>>), Leaf("num", <<45, 50>>), Leaf("id", <<97>>), Leaf("id", <<98, 95, 49>>), Leaf("def", <<97>>)}
Code == [op \in {"==", "!=", "<", ">", "<=", ">=", "&&", "||"} |->
    CASE op = "==" -> <<61, 61>> [] op = "!=" -> <<33, 61>> [] op = "<" -> <<60>> [] op = ">" -> <<62>>
      [] op = "<=" -> <<60, 61>> [] op = ">=" -> <<62, 61>> [] op = "&&" -> <<38, 38>> [] op = "||" -> <<124, 124>>]
LevelOf(op) == IF op \in {"num", "id", "def"} THEN 5 ELSE CHOOSE n \in 1..4: op \in Levels[n]
RECURSIVE Show(_, _)
Show(x, n) == \* as an operand at level n
    LET l == LevelOf(x.op)
        body == CASE x.op \in {"num", "id"} -> x.v
                  [] x.op = "def" -> IsDefinedName \o <<40>> \o x.v \o <<41>>
                  [] OTHER -> Show(x.l, l) \o Code[x.op] \o Show(x.r, l + 1)
    IN  IF l < n THEN <<40>> \o body \o <<41>> ELSE body
RECURSIVE Full(_)
Full(x) == IF x.op \in {"num", "id", "def"} THEN <<40>> \o Show(x, 1) \o <<41>>
           ELSE <<40>> \o Full(x.l) \o Code[x.op] \o Full(x.r) \o <<41>>
Init == t \in Leaves /\ d = 0
Next ==
    \/ d < Depth /\ d' = d + 1 /\ \E op \in Ops, x \in Leaves: t' = [op |-> op, l |-> t, r |-> x, v |-> <<>>]
    \/ d < Depth /\ d' = d + 1 /\ \E op \in Ops, x \in Leaves: t' = [op |-> op, l |-> x, r |-> t, v |-> <<>>]
    \/ d < Depth /\ d' = d + 1 /\ \E op, op2 \in Ops, x \in {Leaf("num", <<49>>), Leaf("id", <<97>>)}, y \in {Leaf("def", <<97>>), Leaf("id", <<98, 95, 49>>)}:
        t' = [op |-> op, l |-> t, r |-> [op |-> op2, l |-> x, r |-> y, v |-> <<>>], v |-> <<>>]
Spec == Init /\ [][Next]_vars
Envs == {<<>>, <<<<<<97>>, 1>>>>, <<<<<<97>>, 0>>, <<<<98, 95, 49>>, 1>>>>, <<<<<<98, 95, 49>>, -2>>>>}
RoundTrip == LET p == Parse(Show(t, 1)) IN p.ok /\ p.t = t
Brackets == LET p == Parse(Full(t)) IN p.ok /\ p.t = t
Cut == LET s == Show(t, 1) IN
    /\ LevelOf(t.op) < 5 => \A k \in {1, 2}: LET x == SubSeq(s, 1, Len(s) - k) IN
        s[Len(s) - k] \in {61, 60, 62, 38, 124} => ~Parse(x).ok
    /\ ~Parse(s \o <<41>>).ok /\ ~Parse(<<40>> \o s).ok /\ ~Parse(s \o <<61, 61>>).ok /\ ~Parse(<<38, 38>> \o s).ok
RECURSIVE Defined(_, _)
Defined(x, ps) == CASE x.op \in {"num", "def"} -> TRUE [] x.op = "id" -> Lookup(ps, x.v) # <<>> [] OTHER -> Defined(x.l, ps) /\ Defined(x.r, ps)
RECURSIVE Uses(_, _)
Uses(x, ops) == x.op \in ops \/ (LevelOf(x.op) < 5 /\ (Uses(x.l, ops) \/ Uses(x.r, ops)))
Meaning == \A ps \in Envs:
    /\ t.op = "==" => (Defined(t, ps) => Holds(t, ps) # Holds([t EXCEPT !.op = "!="], ps))
    /\ t.op = "<" => (Holds(t, ps) <=> Holds([op |-> ">", l |-> t.r, r |-> t.l, v |-> <<>>], ps))
    /\ t.op = "&&" => (Holds(t, ps) => Holds([t EXCEPT !.op = "||"], ps))
    /\ t.op = "&&" => (Holds(t, ps) <=> Holds(t.l, ps) /\ Holds(t.r, ps))
    /\ ps = <<>> /\ ~Uses(t, {"!=", "==", "<=", ">=", "num", "def"}) => ~Holds(t, ps)
OnlyDeps == \A ps \in Envs: \A name \in {<<97>>, <<98, 95, 49>>}:
    name \notin Deps(t) => Eval(t, ps) = Eval(t, SelectSeq(ps, LAMBDA p: p[1] # name))
=============================================================================
