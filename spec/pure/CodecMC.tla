------------------------------- MODULE CodecMC -------------------------------
(* The rules of Codec on every raw value of the 8-bit formats (and some wider ones) and a set of scales, offsets and *)
(* roundings: the exact text is accepted for its raw value and for no other, what it asks for is that raw value       *)
(* alone, every number between two raw values asks for one of them, and different texts of one number ask the same.   *)
EXTENDS Codec
CONSTANTS Formats, Scales, Offsets, Raws
VARIABLES f, w, sc, of
vars == <<f, w, sc, of>>
Init == /\ f \in Formats
        /\ w = <<0, 0, 0, 0>>
        /\ sc \in Scales /\ of \in Offsets
Next == /\ w[4] = 0
        /\ \E x \in IF IsBcd(f) THEN {a * 16 + b: a, b \in 0..9} ELSE Raws: w' = <<0, 0, 0, x>>
        /\ UNCHANGED <<f, sc, of>>
All == 0..255
Some == {0, 1, 2, 9, 10, 99, 100, 126, 127, 128, 129, 130, 200, 254, 255}
FewScales == {D(1, 0), D(1, -1), D(-2, 0)}
S1 == D(1, 0)
S01 == D(1, -1)
S25 == D(25, -2)
SM2 == D(-2, 0)
S100 == D(1, 2)
O0 == Zero
OM40 == D(-40, 0)
O05 == D(5, -1)
ScaleSet == {S1, S01, S25, SM2, S100}
OffsetSet == {O0, OM40, O05}
RECURSIVE Trim(_)
Trim(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Trim(Tail(ds)) ELSE ds
RECURSIVE CutZ(_)
CutZ(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN CutZ(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
Chars(ds) == [i \in 1..Len(ds) |-> ds[i] + 48]
Text(x) == \* as a neat decimal text
    LET y == IF x.e > 0 THEN [x EXCEPT !.n = Shift10(x.n, x.e), !.e = 0] ELSE x
        ds == ToBase(y.n, 10, 12)
        k == 12 + y.e
        int == Trim(SubSeq(ds, 1, k))
        fr == CutZ(SubSeq(ds, k + 1, 12))
    IN  (IF x.neg /\ x.n # <<>> THEN <<45>> ELSE <<>>) \o Chars(int) \o (IF fr = <<>> THEN <<>> ELSE <<46>> \o Chars(fr))
X == Exact(f, w, sc, of)
T == Text(X)
Exactness ==
    /\ TextOk(f, w, sc, of, Zero, T)
    /\ RawOk(f, sc, of, Zero, T, TRUE, w)
    /\ ~RawOk(f, sc, of, Zero, T, FALSE, w)
    /\ InRange(f, sc, of, X)
    /\ Returns(f, w, sc, of, Zero)
Others == \A v \in {<<0, 0, 0, x>>: x \in {0, 1, 9, 16, 127, 128, 255}}:
    (v # w /\ (IsBcd(f) => v[4] % 16 < 10 /\ v[4] < 160)) => ~TextOk(f, v, sc, of, Zero, T) /\ ~RawOk(f, sc, of, Zero, T, TRUE, v)
Between == \A m \in {1, 3, 4}: \* a fraction of a step away: the raw value stays
    LET y == DAdd(X, DMul(sc, D(m, -1))) IN InRange(f, sc, of, y) => RawOk(f, sc, of, Zero, Text(y), TRUE, w)
Step == LET y == DAdd(X, DMul(sc, D(7, -1))) IN InRange(f, sc, of, y) => ~RawOk(f, sc, of, Zero, Text(y), TRUE, w)
Outside == ~InRange(f, sc, of, DAdd(DAdd(DMul(Hi(f), sc), of), DMul(sc, D(1, -1)))) /\ ~InRange(f, sc, of, DSub(DAdd(DMul(Lo(f), sc), of), DMul(sc, D(1, -1))))
Spellings == /\ Decimal(T).ok /\ DEq(Decimal(T).v, X)
             /\ DEq(Decimal(T \o <<101, 48>>).v, X)
             /\ (~Decimal(T).int => DEq(Decimal(T \o <<48, 48>>).v, X))
             /\ ~Decimal(T \o <<120>>).ok /\ ~Decimal(<<45>> \o <<45>> \o T).ok
Rounded == \A rt \in {D(5, 0), D(2, -1)}: LET y == Text(DMul(rt, D(7, 0))) IN
    TextOk(f, w, sc, of, rt, y) => DLe(Abs(DSub(X, Decimal(y).v)), DAdd(Half(rt), D(1, -9)))
Reals == /\ DEq(FloatOf(<<0, 0, 16457, 4059>>), D(1, 0)) = FALSE
         /\ DEq(FloatOf(<<0, 0, 16256, 0>>), D(1, 0)) /\ DEq(FloatOf(<<0, 0, 49184, 0>>), D(-25, -1))
         /\ DEq(DoubleOf(<<16368, 0, 0, 0>>), D(1, 0)) /\ DEq(DoubleOf(<<49156, 0, 0, 0>>), D(-25, -1))
=============================================================================
