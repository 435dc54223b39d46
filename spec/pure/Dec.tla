-------------------------------- MODULE Dec --------------------------------
(* Natural numbers of any size: sequences of limbs, base 10000, the least significant first, no leading zeros.      *)
(* A decimal number is [neg, n, e]: (-1 if neg) * n * 10^e.                                                         *)
EXTENDS Integers, Sequences
LOCAL Base == 10000
LOCAL Zeros(k) == [i \in 1..k |-> 0]
RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
LOCAL Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL Max(a, b) == IF a >= b THEN a ELSE b
RECURSIVE AddFrom(_, _, _, _, _)
LOCAL AddFrom(a, b, i, c, r) ==
    IF i > Max(Len(a), Len(b)) THEN IF c = 0 THEN r ELSE Append(r, c)
    ELSE LET s == Limb(a, i) + Limb(b, i) + c IN AddFrom(a, b, i + 1, s \div Base, Append(r, s % Base))
Plus(a, b) == AddFrom(a, b, 1, 0, <<>>)
RECURSIVE SubFrom(_, _, _, _, _)
LOCAL SubFrom(a, b, i, c, r) ==
    IF i > Len(a) THEN Norm(r)
    ELSE LET s == a[i] - Limb(b, i) - c IN SubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(r, (s + Base) % Base))
Minus(a, b) == SubFrom(a, b, 1, 0, <<>>) \* a >= b
RECURSIVE CmpFrom(_, _, _)
LOCAL CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))
RECURSIVE MulFrom(_, _, _, _, _)
LOCAL MulFrom(a, k, i, c, r) ==
    IF i > Len(a) THEN (IF c = 0 THEN r ELSE IF c < Base THEN Append(r, c) ELSE r \o <<c % Base, c \div Base>>)
    ELSE LET s == a[i] * k + c IN MulFrom(a, k, i + 1, s \div Base, Append(r, s % Base))
TimesSmall(a, k) == IF k = 0 THEN <<>> ELSE MulFrom(a, k, 1, 0, <<>>) \* k <= 65536
RECURSIVE TimesFrom(_, _, _, _)
LOCAL TimesFrom(a, b, i, r) ==
    IF i > Len(b) THEN Norm(r) ELSE TimesFrom(a, b, i + 1, Plus(r, Zeros(i - 1) \o TimesSmall(a, b[i])))
Times(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE TimesFrom(a, b, 1, <<>>)
RECURSIVE DivFrom(_, _, _, _, _)
LOCAL DivFrom(a, k, i, rem, q) ==
    IF i = 0 THEN [q |-> Norm(q), r |-> rem]
    ELSE LET v == rem * Base + a[i] IN DivFrom(a, k, i - 1, v % k, <<v \div k>> \o q)
DivSmall(a, k) == DivFrom(a, k, Len(a), 0, <<>>) \* k <= 65536
Small(k) == Norm(<<k % Base, (k \div Base) % Base, k \div (Base * Base)>>)
RECURSIVE NPow(_, _)
NPow(b, n) == IF n = 0 THEN <<1>> ELSE IF n % 2 = 1 THEN TimesSmall(NPow(b, n - 1), b) ELSE LET h == NPow(b, n \div 2) IN Times(h, h)
LOCAL Ten(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] OTHER -> 1000
Shift10(a, n) == IF a = <<>> THEN a ELSE Zeros(n \div 4) \o TimesSmall(a, Ten(n % 4)) \* a * 10^n

Zero == [neg |-> FALSE, n |-> <<>>, e |-> 0]
D(m, e) == [neg |-> m < 0, n |-> Small(IF m < 0 THEN -m ELSE m), e |-> e]
Neg(x) == [x EXCEPT !.neg = ~@]
Abs(x) == [x EXCEPT !.neg = FALSE]
LOCAL At(x, e) == Shift10(x.n, x.e - e)
DAdd(x, y) ==
    LET e == IF x.e < y.e THEN x.e ELSE y.e
        a == At(x, e)
        b == At(y, e)
    IN  IF x.neg = y.neg THEN [neg |-> x.neg, n |-> Plus(a, b), e |-> e]
        ELSE IF NCmp(a, b) >= 0 THEN [neg |-> x.neg, n |-> Minus(a, b), e |-> e]
        ELSE [neg |-> y.neg, n |-> Minus(b, a), e |-> e]
DMul(x, y) == [neg |-> x.neg # y.neg, n |-> Times(x.n, y.n), e |-> x.e + y.e]
DSub(x, y) == DAdd(x, Neg(y))
IsZero(x) == x.n = <<>>
DLe(x, y) == LET d == DSub(x, y) IN d.neg \/ d.n = <<>>
DEq(x, y) == IsZero(DSub(x, y))
Scale10(x, k) == [x EXCEPT !.e = @ + k]
RECURSIVE Digits(_)
\* number of significant decimal digits
Digits(n) ==
    IF n = <<>> THEN 0
    ELSE IF n[1] = 0 THEN Digits(Tail(n))
    ELSE LET hi == n[Len(n)]
             w == IF hi >= 1000 THEN 4 ELSE IF hi >= 100 THEN 3 ELSE IF hi >= 10 THEN 2 ELSE 1
             z == IF n[1] % 1000 = 0 THEN 3 ELSE IF n[1] % 100 = 0 THEN 2 ELSE IF n[1] % 10 = 0 THEN 1 ELSE 0
         IN  (Len(n) - 1) * 4 + w - z
RECURSIVE HornerFrom(_, _, _, _)
LOCAL HornerFrom(d, b, i, r) == IF i > Len(d) THEN r ELSE HornerFrom(d, b, i + 1, Plus(TimesSmall(r, b), Small(d[i])))
\* digits d (the most significant first) in base b
Horner(d, b) == HornerFrom(d, b, 1, <<>>)
RECURSIVE ToBase(_, _, _)
\* the n lowest digits of a in base b, the most significant first
ToBase(a, b, n) == IF n = 0 THEN <<>> ELSE LET x == DivSmall(a, b) IN Append(ToBase(x.q, b, n - 1), x.r)
=============================================================================
