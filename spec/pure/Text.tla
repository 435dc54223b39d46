-------------------------------- MODULE Text --------------------------------
(* Versions, MQTT topics, and bytes <-> numbers. Texts are sequences of character codes, 64-bit values are four      *)
(* 16-bit words, the most significant one first.                                                                    *)
EXTENDS Dec, FiniteSets, TLC
IsDig(c) == c >= 48 /\ c <= 57

---- \* versions: components split by points; N, N-rcM, N+wbM; anything else counts as 0
RECURSIVE Split(_, _, _)
Split(s, i, cur) ==
    IF i > Len(s) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \* an empty last component is none
    ELSE IF s[i] = 46 THEN <<cur>> \o Split(s, i + 1, <<>>)
    ELSE Split(s, i + 1, Append(cur, s[i]))
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s): IsDig(s[i])
Num(s) == Horner([i \in 1..Len(s) |-> s[i] - 48], 10)
Cut(s, m) == \* where the mark m stands with digits on both sides, 0 if nowhere
    LET S == {i \in 2..(Len(s) - Len(m)): SubSeq(s, i, i + Len(m) - 1) = m /\ AllDigits(SubSeq(s, 1, i - 1))
                                        /\ AllDigits(SubSeq(s, i + Len(m), Len(s)))}
    IN  IF S = {} THEN 0 ELSE CHOOSE i \in S: TRUE
RC == <<45, 114, 99>>
WB == <<43, 119, 98>>
Keys(c) ==
    IF AllDigits(c) THEN <<[k |-> 0, n |-> Num(c)]>>
    ELSE IF Cut(c, RC) # 0 THEN <<[k |-> 0, n |-> Num(SubSeq(c, 1, Cut(c, RC) - 1))], [k |-> -1, n |-> Num(SubSeq(c, Cut(c, RC) + 3, Len(c)))]>>
    ELSE IF Cut(c, WB) # 0 THEN <<[k |-> 0, n |-> Num(SubSeq(c, 1, Cut(c, WB) - 1))], [k |-> 1, n |-> Num(SubSeq(c, Cut(c, WB) + 3, Len(c)))]>>
    ELSE <<[k |-> 0, n |-> <<>>]>>
RECURSIVE Flat(_)
Flat(cs) == IF cs = <<>> THEN <<>> ELSE Keys(Head(cs)) \o Flat(Tail(cs))
KeyAt(v, i) == IF i <= Len(v) THEN v[i] ELSE [k |-> 0, n |-> <<>>]
KeyCmp(a, b) == IF a.k # b.k THEN (IF a.k < b.k THEN -1 ELSE 1) ELSE NCmp(a.n, b.n)
RECURSIVE CmpKeys(_, _, _)
CmpKeys(a, b, i) ==
    IF i > Len(a) /\ i > Len(b) THEN 0
    ELSE LET c == KeyCmp(KeyAt(a, i), KeyAt(b, i)) IN IF c # 0 THEN c ELSE CmpKeys(a, b, i + 1)
Compare(a, b) == \* no version is older than any
    IF a = <<>> \/ b = <<>> THEN (IF a = b THEN 0 ELSE IF a = <<>> THEN -1 ELSE 1)
    ELSE CmpKeys(Flat(Split(a, 1, <<>>)), Flat(Split(b, 1, <<>>)), 1)

---- \* topics
Replacement(c) == CASE c \in {39, 34, 47} -> <<124>> [] c \in {36, 35} -> <<95>> [] c = 43 -> <<95, 112, 108, 117, 115, 95>> [] OTHER -> <<c>>
TopicValid(s) == \A i \in 1..Len(s): s[i] \notin {39, 34, 47, 43, 36, 35}
RECURSIVE Topic(_)
Topic(s) == IF s = <<>> THEN <<>> ELSE Replacement(Head(s)) \o Topic(Tail(s))

---- \* bytes
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Tail8(d) == IF Len(d) <= 8 THEN d ELSE SubSeq(d, Len(d) - 7, Len(d))
WordsOf(d) == LET p == [i \in 1..(8 - Len(d)) |-> 0] \o d IN [i \in 1..4 |-> p[2 * i - 1] * 256 + p[2 * i]]
BytesOf(w) == [i \in 1..8 |-> IF i % 2 = 1 THEN w[(i + 1) \div 2] \div 256 ELSE w[(i + 1) \div 2] % 256]
Low(w, n) == SubSeq(BytesOf(w), 9 - n, 8) \* the n low bytes, the most significant first
RECURSIVE Stuff(_, _)
Sub(rules, b) == LET S == {i \in 1..Len(rules): rules[i][1] = b} IN IF S = {} THEN <<b>> ELSE rules[CHOOSE i \in S: TRUE][2]
Stuff(d, rules) == IF d = <<>> THEN <<>> ELSE Sub(rules, Head(d)) \o Stuff(Tail(d), rules)
RECURSIVE Unstuff(_, _)
Unstuff(d, rules) ==
    IF d = <<>> THEN <<>>
    ELSE LET S == {i \in 1..Len(rules): Len(rules[i][2]) <= Len(d) /\ SubSeq(d, 1, Len(rules[i][2])) = rules[i][2]}
         IN  IF S = {} THEN <<Head(d)>> \o Unstuff(Tail(d), rules)
             ELSE LET r == rules[CHOOSE i \in S: TRUE] IN <<r[1]>> \o Unstuff(SubSeq(d, Len(r[2]) + 1, Len(d)), rules)
Mask(n) == LET k == IF n > 64 THEN 64 ELSE n
           IN  [i \in 1..4 |-> LET b == k - (4 - i) * 16 IN IF b <= 0 THEN 0 ELSE IF b >= 16 THEN 65535 ELSE 2^b - 1]
BcdDigits(w, n) == LET b == Low(w, n) IN [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[(i + 1) \div 2] % 16]
Pack(digits) == [i \in 1..(Len(digits) \div 2) |-> digits[2 * i - 1] * 16 + digits[2 * i]]
=============================================================================
