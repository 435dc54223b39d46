------------------------------ MODULE PureTrace ------------------------------
(* Results of the real code for single inputs, each judged by the rules of Expr, Codec, Text and Frames.            *)
EXTENDS TraceIO, Integers, FiniteSets
E == INSTANCE Expr
C == INSTANCE Codec
T == INSTANCE Text
F == INSTANCE Frames
VARIABLES l, tid
Dc(d) == C!D(d.m, d.e)
ExprOk(e) ==
    LET p == E!Parse(e.s) IN
    /\ e.ok = p.ok
    /\ p.ok => /\ \A i \in 1..Len(e.ps): e.vs[i] = E!Holds(p.t, e.ps[i])
               /\ {e.deps[i]: i \in 1..Len(e.deps)} = E!Deps(p.t)
CodecOk(e) ==
    LET sc == Dc(e.sc)
        of == Dc(e.of)
        rt == Dc(e.rt)
    IN  CASE e.dir = "dec" -> e.ok /\ C!TextOk(e.fmt, e.raw, sc, of, rt, e.text)
          [] e.dir = "rt" -> /\ Has(e, "text") /\ C!TextOk(e.fmt, e.raw, sc, of, rt, e.text)
                             /\ C!Returns(e.fmt, e.raw, sc, of, rt) => e.ok /\ e.raw2 = e.raw
          [] e.dir = "enc" -> C!RawOk(e.fmt, sc, of, rt, e.text, e.ok, Get(e, "raw", <<0, 0, 0, 0>>))
BinOk(e) ==
    CASE e.f \in {"get", "from"} -> e.r = T!WordsOf(T!RevSeq(e.d))
      [] e.f \in {"getbe", "frombe"} -> e.r = T!WordsOf(e.d)
      [] e.f = "put" -> e.r = T!RevSeq(T!Low(e.v, e.n))
      [] e.f = "putbe" -> e.r = T!Low(e.v, e.n)
      [] e.f = "mask" -> e.r = T!Mask(e.n)
      [] e.f = "stuff" -> e.r = T!Stuff(e.d, e.rules)
      [] e.f = "unstuff" -> e.r = T!Unstuff(e.d, e.rules)
      [] e.f = "w2" -> e.r = F!B2(e.n)
      [] e.f = "crc" -> LET c == F!Crc(e.d) IN e.r = (c % 256) * 256 + c \div 256
      [] e.f = "bcd2int" -> e.r = T!ToBase(T!Horner(T!BcdDigits(e.v, e.n), 10), 65536, 4)
      [] e.f = "int2bcd" -> e.r = T!WordsOf(T!Pack(T!ToBase(T!Horner(e.v, 65536), 10, 2 * e.n)))
      [] e.f = "bcdarr" -> e.r = T!Pack(T!ToBase(T!Horner(e.v, 65536), 10, 2 * e.n))
FrameOk(e) ==
    IF ~F!CanMake(e.fn, e.n, e.wn, e.d) THEN e.mk = "bad"
    ELSE LET pdu == F!Request(e.fn, e.a, e.n, e.wa, e.wn, e.d) IN
         /\ e.mk = "ok" /\ e.pdu = pdu /\ e.size = F!AnswerSize(e.fn, e.n)
         /\ e.sent = IF e.tcp THEN F!TcpFrame(tid + 1, e.sid, pdu) ELSE F!RtuFrame(e.sid, pdu)
         /\ IF e.tcp THEN F!TcpOk(tid + 1, e.sid, e.fn, e.rx, e.res, e.data, Get(e, "rpdu", <<>>))
            ELSE F!RtuOk(e.sid, e.fn, e.size, IF e.rx = <<>> THEN <<>> ELSE e.rx[1], e.res, e.data, Get(e, "rpdu", <<>>))
Ok(e) == CASE e.o = "start" -> TRUE
           [] e.o = "expr" -> ExprOk(e)
           [] e.o = "codec" -> CodecOk(e)
           [] e.o = "ver" -> e.r = T!Compare(e.a, e.b)
           [] e.o = "topic" -> e.valid = T!TopicValid(e.s) /\ e.r = T!Topic(e.s)
           [] e.o = "bin" -> BinOk(e)
           [] e.o = "frame" -> FrameOk(e)
Init == l = 1 /\ tid = 0
Next == /\ l <= Len(Trace)
        /\ Ok(Trace[l])
        /\ l' = l + 1
        /\ tid' = IF Trace[l].o = "start" THEN 0
                  ELSE IF Trace[l].o = "frame" /\ Has(Trace[l], "sent") /\ Trace[l].tcp THEN tid + 1 ELSE tid
Spec == Init /\ [][Next]_<<l, tid>>
=============================================================================
