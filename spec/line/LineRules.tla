------------------------------ MODULE LineRules ------------------------------
(* The rules of one serial line: how results of exchanges drive the state of a device, what a value read from or *)
(* written to registers is, what a read request may look like. Pure operators, shared by the exhaustive models  *)
(* (SerialLineMC, WriteQueueMC, EventsMC) and by the trace specification (ClientTrace).                          *)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Rev(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

-----------------------------------------------------------------------------
(* The connection state of a device. rem: how many more failures are allowed; lastok: time of the last success. *)
Enabled(tmo, cyc) == tmo >= 0 /\ cyc >= 0
ConnOk(c, now, cyc) == [c EXCEPT !.st = "C", !.rem = cyc, !.lastok = now]
ConnFail(c, now, tmo) ==
  LET r == Max(c.rem - 1, 0)
      d == r = 0 /\ c.st # "D" /\ now - c.lastok > tmo
  IN [c EXCEPT !.rem = r, !.st = IF d THEN "D" ELSE @]

\* the pause before the k-th attempt to reach a device that does not answer (k counted from the disconnection)
Backoff(k, step, limit) == Min(step * Max(k - 1, 0), limit)

-----------------------------------------------------------------------------
(* Values. The words of a register come from the line in the order of addresses; a value is a sequence of       *)
(* sixteen-bit digits, the least significant first.                                                              *)
Swap(w) == (w % 256) * 256 + (w \div 256)
\* little-endian digits <-> words on the line
Digits(ws, le, sw) == LET x == IF sw THEN [k \in DOMAIN ws |-> Swap(ws[k])] ELSE ws
                      IN IF le THEN x ELSE Rev(x)
Wire(ds, le, sw) == LET x == IF le THEN ds ELSE Rev(ds)
                    IN IF sw THEN [k \in DOMAIN x |-> Swap(x[k])] ELSE x
Dig(ds, k) == IF k \in DOMAIN ds THEN ds[k] ELSE 0
\* bits off .. off + 15 of the number
Window(ds, off) == LET q == off \div 16
                       r == off % 16
                   IN IF r = 0 THEN Dig(ds, q + 1)
                      ELSE Dig(ds, q + 1) \div Pow2(r) + (Dig(ds, q + 2) % Pow2(r)) * Pow2(16 - r)
\* the width-bit field at off as four digits
Field(ds, off, w) == [k \in 1 .. 4 |-> IF w <= 16 * (k - 1) THEN 0
                                       ELSE Window(ds, off + 16 * (k - 1)) % Pow2(Min(16, w - 16 * (k - 1)))]
Bit(ds, b) == (Dig(ds, b \div 16 + 1) \div Pow2(b % 16)) % 2
\* the number with the field replaced by the value
Place(ds, off, w, val) ==
  [k \in DOMAIN ds |->
     LET B == 16 * (k - 1) IN
     IF off >= B + 16 \/ off + w <= B THEN ds[k]
     ELSE LET lo == Max(off - B, 0)
              hi == Min(off + w - B, 16)
              fld == (IF off >= B THEN Dig(val, 1) * Pow2(off - B) ELSE Window(val, B - off)) % Pow2(hi)
          IN (ds[k] % Pow2(lo)) + ((fld \div Pow2(lo)) * Pow2(lo)) + (IF hi = 16 THEN 0 ELSE (ds[k] \div Pow2(hi)) * Pow2(hi))]

\* chars of a string register: one per word, or two per word, up to a zero or 0xFF
RECURSIVE UpTo(_)
UpTo(s) == IF s = <<>> \/ Head(s) = 0 \/ Head(s) = 255 THEN <<>> ELSE <<Head(s)>> \o UpTo(Tail(s))
Bytes2(ws) == [k \in 1 .. 2 * Len(ws) |-> IF k % 2 = 1 THEN ws[(k + 1) \div 2] \div 256 ELSE ws[k \div 2] % 256]
Chars(ws, le, sw, kind) == LET x == Rev(Digits(ws, le, sw))
                           IN IF kind = "s" THEN UpTo([k \in DOMAIN x |-> x[k] % 256]) ELSE UpTo(Bytes2(x))

-----------------------------------------------------------------------------
(* Read requests. regs: the registers a request is made for, [a, n]. *)
MaxWords == 125
MaxBits == 2000
Cap(bits, maxread) == LET m == IF bits THEN MaxBits ELSE MaxWords
                      IN IF maxread > 0 /\ maxread <= m THEN maxread ELSE m
Covered(regs) == UNION {r.a .. (r.a + r.n - 1) : r \in regs}
\* longest run of addresses inside that no register of the request occupies
HoleOk(regs, a, end, hole) ==
  LET C == Covered(regs)
  IN \A x \in a .. end - 1 : x \notin C => \E y \in C : y < x /\ x - y <= hole
HasHole(regs, a, end) == \E x \in a .. end - 1 : x \notin Covered(regs)
=============================================================================
