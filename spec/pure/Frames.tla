------------------------------- MODULE Frames -------------------------------
(* Modbus requests and answers as bytes, over RTU and TCP.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
RECURSIVE CrcBits(_, _), CrcFrom(_, _, _)
CrcBits(c, n) == IF n = 0 THEN c ELSE CrcBits(IF c % 2 = 1 THEN (c \div 2) ^^ 40961 ELSE c \div 2, n - 1) \* 0xA001
CrcFrom(d, i, c) == IF i > Len(d) THEN c ELSE CrcFrom(d, i + 1, CrcBits(c ^^ d[i], 8))
Crc(d) == CrcFrom(d, 1, 65535)
WithCrc(d) == d \o <<Crc(d) % 256, Crc(d) \div 256>>
CrcOk(f) == Len(f) >= 4 /\ f = WithCrc(SubSeq(f, 1, Len(f) - 2))
B2(n) == <<n \div 256, n % 256>>
BitReads == {1, 2}
Reads == {1, 2, 3, 4}
Singles == {5, 6}
Writes == {5, 6, 15, 16}
BytesFor(n) == (n + 7) \div 8
---- \* requests
CanMake(fn, n, wn, d) ==
    CASE fn \in Reads -> TRUE [] fn \in Singles -> Len(d) = 2 [] fn = 15 -> Len(d) = BytesFor(n)
      [] fn = 16 -> Len(d) = 2 * n [] fn = 23 -> Len(d) = 2 * wn [] OTHER -> FALSE
Request(fn, a, n, wa, wn, d) ==
    CASE fn \in Reads -> <<fn>> \o B2(a) \o B2(n)
      [] fn \in Singles -> <<fn>> \o B2(a) \o d
      [] fn \in {15, 16} -> <<fn>> \o B2(a) \o B2(n) \o <<Len(d)>> \o d
      [] fn = 23 -> <<fn>> \o B2(a) \o B2(n) \o B2(wa) \o B2(wn) \o <<Len(d)>> \o d
AnswerSize(fn, n) == IF fn \in Writes THEN 5 ELSE IF fn \in BitReads THEN 2 + BytesFor(n) ELSE 2 + 2 * n
RtuFrame(sid, pdu) == WithCrc(<<sid>> \o pdu)
TcpFrame(tid, sid, pdu) == B2(tid) \o <<0, 0>> \o B2(Len(pdu) + 1) \o <<sid>> \o pdu
---- \* answers
\* "data": the PDU answers function fn; "exc": it is an exception answer; "no": neither
Judge(fn, pdu) ==
    IF Len(pdu) >= 2 /\ pdu[1] = fn + 128 /\ pdu[2] # 0 THEN "exc"
    ELSE IF Len(pdu) >= 2 /\ pdu[1] % 128 = fn /\ fn \in Writes /\ Len(pdu) = 5 THEN (IF pdu[1] = fn THEN "data" ELSE "any")
    ELSE IF Len(pdu) >= 2 /\ pdu[1] % 128 = fn /\ fn \notin Writes /\ Len(pdu) = pdu[2] + 2 THEN (IF pdu[1] = fn THEN "data" ELSE "any")
    ELSE "no"
DataOf(fn, pdu) == IF fn \in Writes THEN <<>> ELSE SubSeq(pdu, 3, Len(pdu))
\* what a PDU that came back makes of a request: ("any": an exception answer without a code, nothing is promised)
Verdict(fn, pdu, res, data) ==
    CASE Judge(fn, pdu) = "exc" -> res = "exc" \o ToString(pdu[2])
      [] Judge(fn, pdu) = "data" -> res = "ok" /\ data = DataOf(fn, pdu)
      [] Judge(fn, pdu) = "any" -> res # "other"
      [] OTHER -> res \in {"bad"}
\* RTU: burst is what came before the first silence
RtuOk(sid, fn, size, burst, res, data, rpdu) ==
    LET want == IF Len(burst) >= 2 /\ burst[2] >= 128 THEN 5 ELSE size + 3
        f == IF Len(burst) > want THEN SubSeq(burst, 1, want) ELSE burst
        pdu == SubSeq(f, 2, Len(f) - 2)
    IN  IF burst = <<>> THEN res = "to"
        ELSE IF CrcOk(f) /\ f[1] = sid THEN Verdict(fn, pdu, res, data) /\ (res = "ok" => rpdu = pdu)
        ELSE res \notin {"ok", "other", "to"} /\ SubSeq(res, 1, 3) # "exc"
\* TCP: the stream is cut into frames; those of other transactions are passed over
RECURSIVE FirstOf(_, _, _)
FirstOf(s, i, tid) ==
    IF i + 6 > Len(s) THEN <<>>
    ELSE LET n == s[i + 4] * 256 + s[i + 5] IN
         IF n = 0 \/ i + 5 + n > Len(s) THEN <<>>
         ELSE IF s[i] * 256 + s[i + 1] = tid THEN SubSeq(s, i + 6, i + 5 + n)
         ELSE FirstOf(s, i + 6 + n, tid)
RECURSIVE Concat(_), WholeFrames(_, _)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
WholeFrames(s, i) == \* the burst ends where a frame ends
    i = Len(s) + 1 \/ (i + 6 <= Len(s) /\ s[i + 4] * 256 + s[i + 5] > 0 /\ WholeFrames(s, i + 6 + s[i + 4] * 256 + s[i + 5]))
TcpOk(tid, sid, fn, bursts, res, data, rpdu) ==
    LET f == FirstOf(Concat(bursts), 1, tid)
        pdu == Tail(f)
    IN  IF f = <<>> THEN res \in {"to", "bad"}
        ELSE IF f[1] # sid THEN res \in {"to", "bad"}
        ELSE \/ Verdict(fn, pdu, res, data) /\ (res = "ok" => rpdu = pdu)
             \/ res \in {"to", "bad"} /\ ~\A i \in 1..Len(bursts): WholeFrames(bursts[i], 1)
=============================================================================
