------------------------------- MODULE Codec -------------------------------
(* What a register's raw value means as text and which raw value a text asks for.                                   *)
(* raw: four 16-bit words, the most significant one first (or character codes); texts are sequences of codes.       *)
EXTENDS Dec, FiniteSets, TLC
Width == [U8 |-> 8, S8 |-> 8, U16 |-> 16, S16 |-> 16, U24 |-> 24, S24 |-> 24, U32 |-> 32, S32 |-> 32, U64 |-> 64,
          S64 |-> 64, BCD8 |-> 8, BCD16 |-> 16, BCD24 |-> 24, BCD32 |-> 32, Float |-> 32, Double |-> 64, Char8 |-> 8]
IsString(f) == f \in {"String", "String8"}
IsSigned(f) == f \in {"S8", "S16", "S24", "S32", "S64"}
IsBcd(f) == f \in {"BCD8", "BCD16", "BCD24", "BCD32"}
IsReal(f) == f \in {"Float", "Double"}
P2(n) == NPow(2, n)

---- \* raw value -> number
Nibbles(w) == [i \in 1..16 |-> (w[(i - 1) \div 4 + 1] \div (CASE i % 4 = 1 -> 4096 [] i % 4 = 2 -> 256 [] i % 4 = 3 -> 16 [] OTHER -> 1)) % 16]
RealOf(neg, m, x) == IF x >= 0 THEN [neg |-> neg, n |-> Times(m, P2(x)), e |-> 0]
                     ELSE [neg |-> neg, n |-> Times(m, NPow(5, -x)), e |-> x]
FloatOf(w) ==
    LET ex == (w[3] % 32768) \div 128 IN
    IF ex = 0 THEN Zero ELSE RealOf(w[3] >= 32768, Horner(<<128 + (w[3] % 128), w[4]>>, 65536), ex - 150)
DoubleOf(w) ==
    LET ex == (w[1] % 32768) \div 16 IN
    IF ex = 0 THEN Zero ELSE RealOf(w[1] >= 32768, Horner(<<16 + (w[1] % 16), w[2], w[3], w[4]>>, 65536), ex - 1075)
\* the bits above the format's width are clear
Fits(f, w) == NCmp(Horner(w, 65536), P2(Width[f])) < 0
\* the number a raw value stands for
Num(f, w) ==
    CASE f = "Float" -> FloatOf(w)
      [] f = "Double" -> DoubleOf(w)
      [] IsBcd(f) -> [neg |-> FALSE, n |-> Horner(Nibbles(w), 10), e |-> 0]
      [] IsSigned(f) -> LET v == Horner(w, 65536) IN
            IF NCmp(v, P2(Width[f] - 1)) >= 0 THEN [neg |-> TRUE, n |-> Minus(P2(Width[f]), v), e |-> 0]
            ELSE [neg |-> FALSE, n |-> v, e |-> 0]
      [] OTHER -> [neg |-> FALSE, n |-> Horner(w, 65536), e |-> 0]
Lo(f) == IF IsSigned(f) THEN [neg |-> TRUE, n |-> P2(Width[f] - 1), e |-> 0] ELSE Zero
Hi(f) == CASE IsBcd(f) -> [neg |-> FALSE, n |-> Minus(NPow(10, Width[f] \div 4), <<1>>), e |-> 0]
           [] IsSigned(f) -> [neg |-> FALSE, n |-> Minus(P2(Width[f] - 1), <<1>>), e |-> 0]
           [] OTHER -> [neg |-> FALSE, n |-> Minus(P2(Width[f]), <<1>>), e |-> 0]

---- \* text -> number
IsDigit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
IsHex(s) == Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {88, 120} /\ \A i \in 3..Len(s): HexVal(s[i]) < 16
RECURSIVE Span(_, _)
Span(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN Span(s, i + 1) ELSE i \* the first position from i that is no digit
Bad == [ok |-> FALSE, v |-> Zero, int |-> FALSE]
Val(s, i, j) == [k \in 1..(j - i) |-> s[i + k - 1] - 48]
RECURSIVE SmallVal(_)
SmallVal(d) == IF d = <<>> THEN 0 ELSE SmallVal(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)]
\* [sign] digits [. digits] [e [sign] digits], at least one digit before the exponent
Decimal(s) ==
    LET i0 == IF s # <<>> /\ s[1] \in {43, 45} THEN 2 ELSE 1
        i1 == Span(s, i0)
        dot == i1 <= Len(s) /\ s[i1] = 46
        i2 == IF dot THEN Span(s, i1 + 1) ELSE i1
        m == Val(s, i0, i1) \o (IF dot THEN Val(s, i1 + 1, i2) ELSE <<>>)
        frac == IF dot THEN i2 - i1 - 1 ELSE 0
        ex == i2 <= Len(s) /\ s[i2] \in {69, 101}
        i3 == IF ex /\ i2 + 1 <= Len(s) /\ s[i2 + 1] \in {43, 45} THEN i2 + 2 ELSE i2 + 1
        i4 == IF ex THEN Span(s, i3) ELSE i2
        e0 == IF ex /\ i4 - i3 < 4 THEN SmallVal(Val(s, i3, i4)) ELSE 0
        e == IF ex /\ s[i2 + 1] = 45 THEN -e0 ELSE e0
    IN  IF m = <<>> \/ i4 # Len(s) + 1 \/ (ex /\ i4 = i3) THEN Bad
        ELSE [ok |-> TRUE, v |-> [neg |-> s[1] = 45, n |-> Horner(m, 10), e |-> e - frac], int |-> ~dot /\ ~ex]
Parse(s) == IF IsHex(s) THEN [ok |-> TRUE, v |-> [neg |-> FALSE, n |-> Horner([i \in 1..(Len(s) - 2) |-> HexVal(s[i + 2])], 16), e |-> 0], int |-> TRUE]
            ELSE Decimal(s)
\* no superfluous zeros or points
Neat(s) ==
    LET i1 == Span(s, IF s # <<>> /\ s[1] = 45 THEN 2 ELSE 1)
        i2 == Span(s, i1 + 1)
    IN  i1 <= Len(s) /\ s[i1] = 46 => i2 > i1 + 1 /\ s[i2 - 1] # 48

---- \* the rules; sc, of, rt are decimals: text = raw * sc + of, rounded to a multiple of rt if rt > 0
Half(x) == DMul(x, D(5, -1))
Plain(sc, of) == DEq(sc, D(1, 0)) /\ IsZero(of)
Exact(f, w, sc, of) == DAdd(DMul(Num(f, w), sc), of)
Prec(f) == IF f = "Float" THEN 6 ELSE 14 \* decimal digits that can be relied on
Noise(f, x, sc, of) == \* how far the arithmetic of doubles may be off
    Scale10(DAdd(DAdd(Abs(DMul(x, sc)), Abs(of)), Abs(DAdd(DMul(x, sc), of))), -Prec(f))
MultipleOf(x, rt) == \* of a decimal rt with a small mantissa
    LET d == x.e - rt.e
        n == IF d >= 0 THEN Shift10(x.n, d) ELSE x.n
        m == IF d >= 0 THEN rt.n ELSE Shift10(rt.n, -d)
        k == SmallVal(ToBase(m, 10, 9))
    IN  k > 65536 \/ DivSmall(n, k).r = 0
TextOk(f, w, sc, of, rt, s) ==
    IF IsString(f) THEN s = w
    ELSE IF f = "Char8" THEN s = <<w[4]>>
    ELSE LET p == Decimal(s)
             x == Exact(f, w, sc, of)
             d == Abs(DSub(p.v, x))
         IN  /\ p.ok
             /\ (IsReal(f) /\ Plain(sc, of) /\ IsZero(rt)) \/ Neat(s)
             /\ IF IsZero(rt) THEN
                    IF ~IsReal(f) /\ Plain(sc, of) THEN IsZero(d) /\ p.int
                    ELSE DLe(d, Noise(f, Num(f, w), sc, of))
                ELSE /\ DLe(d, DAdd(Half(rt), Noise(f, Num(f, w), sc, of)))
                     /\ (DLe(Scale10(rt, IF f = "Float" THEN 6 ELSE 13), Abs(x)) \/ Digits(p.v.n) >= Prec(f) \/ MultipleOf(p.v, rt))
\* a text a register of this format can hold
InRange(f, sc, of, v) ==
    LET a == DAdd(DMul(Lo(f), sc), of)
        b == DAdd(DMul(Hi(f), sc), of)
    IN  IF sc.neg THEN DLe(b, v) /\ DLe(v, a) ELSE DLe(a, v) /\ DLe(v, b)
Wide(f, sc, of, p) == \* beyond what doubles can count
    \/ ~(p.int /\ Plain(sc, of)) /\ DLe(D(1, 15), Abs(DSub(p.v, of)))
    \/ DLe(Scale10(Abs(sc), 15), Abs(DSub(p.v, of)))
RawOk(f, sc, of, rt, s, ok, w) ==
    IF IsString(f) THEN ok /\ w = s
    ELSE IF f = "Char8" THEN ok /\ w = <<0, 0, 0, IF s = <<>> THEN 0 ELSE s[1]>>
    ELSE LET p == Parse(s) IN
         IF ~p.ok THEN ~ok
         ELSE IF IsReal(f) THEN
              ok /\ DLe(Abs(DSub(Exact(f, w, sc, of), p.v)),
                        DAdd(Half(rt), Scale10(DAdd(Abs(p.v), Abs(of)), -(IF f = "Float" THEN 7 ELSE 14))))
         \* unspecified
         ELSE IF ~(InRange(f, sc, of, DAdd(p.v, Half(rt))) /\ InRange(f, sc, of, DSub(p.v, Half(rt)))) THEN TRUE
         ELSE IF p.int /\ Plain(sc, of) THEN ok /\ Fits(f, w) /\ DEq(Num(f, w), p.v)
         ELSE IF Wide(f, sc, of, p) THEN TRUE
         ELSE ok /\ Fits(f, w) /\ DLe(Abs(DSub(Exact(f, w, sc, of), p.v)), DAdd(Half(rt), DMul(Abs(sc), D(501, -3))))
\* what is shown and entered again leaves the register as it is
Returns(f, w, sc, of, rt) ==
    \/ IsString(f) \/ f = "Char8"
    \/ ~IsReal(f) /\ Plain(sc, of) /\ IsZero(rt)
    \/ /\ (IsReal(f) => Plain(sc, of) /\ IsZero(rt))
       /\ Digits(Exact(f, w, sc, of).n) <= (IF f = "Float" THEN 7 ELSE 15)
       /\ ~DLe(D(1, 15), Abs(Num(f, w)))
       /\ \/ IsZero(rt)
          \/ ~IsReal(f) /\ ~DLe(Abs(sc), rt)
          \/ ~IsReal(f) /\ IsZero(of) /\ DEq(Abs(sc), rt)
=============================================================================
