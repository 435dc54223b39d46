------------------------------ MODULE ValuesMC ------------------------------
(* Laws of the value operators of LineRules, over boundary words: a field written by itself changes nothing else, *)
(* reads back as written, and the orders of words and bytes are undone exactly.                                   *)
EXTENDS LineRules, TLC
CONSTANTS Words, Fields, Widths
VARIABLES x, y, off, w, le, sw, stage
vars == <<x, y, off, w, le, sw, stage>>
N == 2
Init == /\ x \in [1 .. N -> Words] /\ y = <<0, 0, 0, 0>> /\ off = 0 /\ w = 1 /\ le \in BOOLEAN /\ sw \in BOOLEAN /\ stage = "read"
Cut(v, n) == Field(v, 0, n)
Next == \/ /\ stage = "read"
           /\ \E o \in Fields, n \in Widths, a \in Words, b \in Words :
                /\ o + n <= 16 * N
                /\ off' = o /\ w' = n /\ y' = Cut(<<a, b, 0, 0>>, n)
           /\ stage' = "write" /\ UNCHANGED <<x, le, sw>>
        \/ /\ stage = "write"
           /\ x' = Place(x, off, w, y) /\ stage' = "done" /\ UNCHANGED <<y, off, w, le, sw>>
Spec == Init /\ [][Next]_vars
ReadsBack == stage = "done" => Field(x, off, w) = y
OthersKept == [][stage = "write" => \A b \in 0 .. 16 * N - 1 : (b < off \/ b >= off + w) => Bit(x', b) = Bit(x, b)]_vars
RightBits == stage = "done" => \A b \in 0 .. w - 1 : Bit(x, off + b) = Bit(y, b)
RoundTrip == Digits(Wire(x, le, sw), le, sw) = x /\ Wire(Digits(x, le, sw), le, sw) = x
InRange == \A k \in 1 .. N : x[k] \in 0 .. 65535
=============================================================================
