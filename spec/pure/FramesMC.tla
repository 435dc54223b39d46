------------------------------ MODULE FramesMC ------------------------------
(* No RTU answer with up to three flipped bits, or with an error burst of up to 16 bits, passes for an answer (every *)
(* flip in every frame length the client meets in short answers); an answer to another function, from another slave, *)
(* cut short or prolonged does not either.                                                                          *)
EXTENDS Frames
CONSTANTS Lens, Flips
VARIABLES f, e, n
vars == <<f, e, n>>
Fn == 3
Pdu(k) == <<Fn, k>> \o [i \in 1..k |-> (i * 37 + k) % 256]
Frame(k) == RtuFrame(7, Pdu(k))
Flip(x, b) == [x EXCEPT ![b \div 8 + 1] = @ ^^ (2^(b % 8))]
Init == \E k \in Lens: f = Frame(k) /\ e = {} /\ n = k
Next == /\ Cardinality(e) < Flips
        /\ \E b \in 0..(Len(f) * 8 - 1): /\ \A x \in e: x < b
                                         /\ e' = e \cup {b} /\ f' = Flip(f, b) /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Accepted(x, sid, fn) == CrcOk(x) /\ x[1] = sid /\ Judge(fn, SubSeq(x, 2, Len(x) - 2)) = "data"
Detected == e # {} => ~CrcOk(f)
Intact == e = {} => /\ Accepted(f, 7, 3) /\ ~Accepted(f, 8, 3) /\ ~Accepted(f, 7, 4) /\ ~Accepted(f, 7, 16)
                    /\ \A k \in 1..(Len(f) - 1): ~Accepted(SubSeq(f, 1, k), 7, 3)
                    /\ \A b \in 0..255: ~Accepted(Append(f, b), 7, 3)
\* bursts: from each bit, any pattern of up to 8 bits that begins and ends with an error
Bursts == e = {} => \A b \in 0..(Len(f) * 8 - 17), p \in {q \in 1..511: q % 2 = 1}:
    LET x == [i \in 1..Len(f) |-> f[i] ^^ (LET s == (i - 1) * 8 - b IN
                IF s >= 0 THEN shiftR(p, s) % 256 ELSE IF s > -8 THEN (p * (2^(-s))) % 256 ELSE 0)]
    IN  ~CrcOk(x)
Requests == \A k \in {0, 1, 2, 7, 8, 9, 120}: AnswerSize(1, k) = 2 + (IF k % 8 = 0 THEN k \div 8 ELSE k \div 8 + 1) /\ AnswerSize(3, k) = 2 + 2 * k
\* a known frame of the Modbus specification
Known == WithCrc(<<1, 3, 0, 0, 0, 10>>) = <<1, 3, 0, 0, 0, 10, 197, 205>>
=============================================================================
