----------------------------- MODULE ConfigTrace -----------------------------
(* What the real code makes of templates and a configuration, judged by the rules of Config.                         *)
EXTENDS TraceIO, Integers, FiniteSets
C == INSTANCE Config
VARIABLES l, st
Chk(p, c) == IOEnv.PROP \in {p, "ALL"} => c
SetOf(s) == {s[i] : i \in DOMAIN s}
Channel(c) == [c EXCEPT !.titles = SetOf(@), !.enum = {<<@[i][1], SetOf(@[i][2])>> : i \in DOMAIN @}]
Device(d) == [d EXCEPT !.ch = [i \in DOMAIN @ |-> Channel(@[i])]]
Port(p) == [p EXCEPT !.devs = [i \in DOMAIN @ |-> Device(@[i])]]
Cfg(e) ==
    LET T == Get(st, "T", C!Nil)
        x == C!Load(st.C, T, Get(st, "codes", C!Nil))
    IN /\ Chk("P21", x.dup => ~e.ok)
       /\ Chk("P20", x.bad => ~e.ok)
       /\ ~x.bad /\ ~x.dup => e.ok
       /\ Chk("P20", e.ok /\ ~x.bad => /\ e.lim \in x.lim /\ e.mui = x.mui
                              /\ Len(e.ports) = Len(x.ports)
                              /\ \A i \in DOMAIN e.ports :
                                    IF Has(IOEnv, "WHERE")
                                    THEN /\ \A k \in DOMAIN e.ports[i] \ {"devs"} : x.ports[i][k] = e.ports[i][k]
                                         /\ Len(e.ports[i].devs) = Len(x.ports[i].devs)
                                         /\ \A j \in DOMAIN e.ports[i].devs : LET a == Device(e.ports[i].devs[j])
                                                                                  b == x.ports[i].devs[j] IN
                                               /\ \A k \in DOMAIN a \ {"ch"} : IF b[k] = a[k] THEN TRUE ELSE PrintT(<<k, "spec", b[k], "code", a[k]>>) /\ FALSE
                                               /\ IF Len(a.ch) = Len(b.ch) THEN TRUE ELSE PrintT(<<"spec", [q \in DOMAIN b.ch |-> b.ch[q].id], "code", [q \in DOMAIN a.ch |-> a.ch[q].id]>>) /\ FALSE
                                               /\ \A q \in DOMAIN a.ch : \A k \in DOMAIN a.ch[q] : IF b.ch[q][k] = a.ch[q][k] THEN TRUE ELSE PrintT(<<k, "spec", b.ch[q][k], "code", a.ch[q][k]>>) /\ FALSE
                                    ELSE Port(e.ports[i]) = x.ports[i])
Ok(e) == CASE e.o = "start" -> TRUE
           [] e.o = "cfg" -> Cfg(e)
Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ Ok(Trace[l])
        /\ l' = l + 1
        /\ st' = IF Trace[l].o = "start" THEN Trace[l] ELSE st
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
