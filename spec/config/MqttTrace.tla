------------------------------ MODULE MqttTrace ------------------------------
(* A recorded run of the driver: from a configuration to the topics. What is on the line (requests and answers) says   *)
(* what is known of every register; what is published must follow from it, at once and nothing else.                    *)
EXTENDS TraceIO, Integers, FiniteSets
C == INSTANCE Config
M == INSTANCE Mqtt
VARIABLES l, s
Ev == Trace[l]
U16 == 2
S16 == 3
U32 == 6
S32 == 7
Words(f) == IF f \in {U32, S32} THEN 2 ELSE 1
Number(f, w) == CASE f = S16 -> IF w[1] >= 32768 THEN w[1] - 65536 ELSE w[1]
                  [] f = U32 -> w[1] * 65536 + w[2]
                  [] f = S32 -> IF w[1] >= 32768 THEN (w[1] - 65536) * 65536 + w[2] ELSE w[1] * 65536 + w[2]
                  [] OTHER -> w[1]
Wire(f, n) == CASE f \in {U32, S32} -> IF n >= 0 THEN <<n \div 65536, n % 65536>>
                                       ELSE LET m == -(n + 1) IN <<65535 - m \div 65536, 65535 - (m % 65536)>>
                [] OTHER -> <<IF n < 0 THEN n + 65536 ELSE n>>
IntOf(str) == CHOOSE n \in 0 .. 1000 : ToString(n) = str

-----------------------------------------------------------------------------
(* Set-up: channels by device and control *)
Devs(x) == UNION {{<<p, d>> : d \in DOMAIN x.ports[p].devs} : p \in DOMAIN x.ports}
SidOf(x, k, cfg) == cfg.sids[k[1]][k[2]]
Build(x, cfg) ==
    LET D(k) == x.ports[k[1]].devs[k[2]]
        keys == UNION {{<<D(k).id, D(k).ch[c].id>> : c \in DOMAIN D(k).ch} : k \in Devs(x)}
        place(key) == CHOOSE pc \in UNION {{<<k, c>> : c \in DOMAIN D(k).ch} : k \in Devs(x)} :
                         D(pc[1]).id = key[1] /\ D(pc[1]).ch[pc[2]].id = key[2]
        chan(key) == LET pc == place(key) IN [sid |-> SidOf(x, pc[1], cfg), ch |-> D(pc[1]).ch[pc[2]], title |-> D(pc[1]).name]
        ch == TLCEval([key \in keys |-> chan(key)])
    IN [x |-> x, mui |-> x.mui, ch |-> ch, cfg |-> cfg,
        v |-> [key \in keys |-> [k \in DOMAIN ch[key].ch.regs |-> <<>>]],       \* the value known
        rf |-> [key \in keys |-> [k \in DOMAIN ch[key].ch.regs |-> "no"]],      \* its last reading failed: no, may, yes
        wf |-> [key \in keys |-> [k \in DOMAIN ch[key].ch.regs |-> "no"]],      \* its last writing failed
        on |-> [key \in keys |-> [k \in DOMAIN ch[key].ch.regs |-> <<>>]],      \* numbers the user wants written
        ont |-> [key \in keys |-> 0],
        p |-> [key \in keys |-> M!New],
        dv |-> [sd \in {ch[key].sid : key \in keys} |-> [st |-> "?", bad |-> FALSE, ok |-> FALSE]],
        \* of the last request: channels whose value may and must be published, whose error must be right; how often each was
        may |-> {}, must |-> {}, err |-> {}, n |-> [key \in keys |-> 0], qt |-> 0, qsid |-> 0]
Chk(c) == c
Known(key) == \A k \in DOMAIN s.v[key] : s.v[key][k] # <<>>
Regs(key) == s.ch[key].ch.regs
Texts(key) == [k \in DOMAIN s.v[key] |-> ToString(Number(Regs(key)[k].fmt, s.v[key][k]))]
Text(key) == M!TextOf(s.ch[key].ch, Texts(key))
Counter(key) == \E k \in DOMAIN Regs(key) : Regs(key)[k].tn = "press_counter"
Zero(key) == \E k \in DOMAIN Regs(key) : Regs(key)[k].tn = "press_counter" /\ s.v[key][k] = <<0>>
Button(key) == s.ch[key].ch.type = "pushbutton"
Dv(key) == s.dv[s.ch[key].sid]
\* the errors that may be shown now, and those that must
RMay(key) == (\E k \in DOMAIN s.rf[key] : s.rf[key][k] # "no") \/ Dv(key).bad \/ s.cfg.nolink
RMust(key) == \E k \in DOMAIN s.rf[key] : s.rf[key][k] = "yes"
WMay(key) == \E k \in DOMAIN s.wf[key] : s.wf[key][k] # "no" \/ (s.on[key][k] # <<>> /\ (Dv(key).st # "" \/ s.cfg.nolink))
WMust(key) == \E k \in DOMAIN s.wf[key] : s.wf[key][k] = "yes"
HasR(e) == e \in {"r", "rw"}
HasW(e) == e \in {"w", "rw"}
ErrMay(key, e) == e \in {"", "r", "w", "rw"} /\ (HasR(e) => RMay(key)) /\ (HasW(e) => WMay(key))
ErrMust(key, e) == (RMust(key) => HasR(e)) /\ (WMust(key) => HasW(e))

-----------------------------------------------------------------------------
(* At the next request (and at the end) everything that follows from the one before must have been published *)
Hidden(key) == M!Hushed(s.p[key], Counter(key), Zero(key))
Settled ==
    /\ \A key \in s.must :
         Known(key) /\ ~Hidden(key) =>
            /\ s.p[key].cv = Text(key)
            /\ s.mui = 0 \/ Button(key) => s.n[key] > 0
            /\ s.mui > 0 => s.qt - s.p[key].ct < s.mui * M!SECOND
    /\ \A key \in s.err : ErrMust(key, s.p[key].ce) /\ ErrMay(key, s.p[key].ce)
    /\ s.qsid # 0 /\ s.dv[s.qsid].ok => s.dv[s.qsid].st = ""
\* a zero that is not shown counts as the last value
Hush(f) == [key \in DOMAIN f |-> IF key \in s.may /\ Known(key) THEN (IF Hidden(key) THEN M!Silenced(f[key], Text(key)) ELSE M!Alive(f[key])) ELSE f[key]]
\* a request for some channels went well or not
Answered(e, keys, ok) ==
    [s EXCEPT !.p = Hush(@), !.n = [key \in DOMAIN @ |-> 0], !.qt = e.t2, !.qsid = e.s, !.dv[e.s].bad = ~ok, !.dv[e.s].ok = ok, !.err = keys]

-----------------------------------------------------------------------------
Table(f) == CASE f = 1 -> {"coil"} [] f = 2 -> {"discrete"} [] f = 3 -> {"holding", "holding_multi", "holding_single"} [] f = 4 -> {"input", "press_counter"}
              [] f = 5 -> {"coil"} [] f \in {6, 16} -> {"holding", "holding_multi"}
Ok(e) == e.r = "ok" /\ ~Get(e, "late", FALSE)
Places == UNION {{<<key, k>> : k \in DOMAIN Regs(key)} : key \in DOMAIN s.ch}
\* writing has not been possible while the user's number waits: it may be shown as failed
Waits(e) == [key \in DOMAIN s.wf |-> [k \in DOMAIN s.wf[key] |->
                IF s.wf[key][k] = "no" /\ s.on[key][k] # <<>> /\ s.ont[key] < e.t THEN "may" ELSE s.wf[key][k]]]
Read(e) ==
    LET hit == {q \in Places : LET r == Regs(q[1])[q[2]] IN
                  /\ s.ch[q[1]].sid = e.s /\ r.tn \in Table(e.f) /\ r.acc # "wo"
                  /\ e.a <= r.a /\ r.a + Words(r.fmt) <= e.a + e.n}
        val(q) == [x \in 1 .. Words(Regs(q[1])[q[2]].fmt) |-> e.v[Regs(q[1])[q[2]].a - e.a + x]]
        wf == Waits(e)
        base == Answered(e, {q[1] : q \in hit}, Ok(e))
        mark(f, x) == [key \in DOMAIN f |-> [k \in DOMAIN f[key] |-> IF <<key, k>> \in hit THEN x ELSE f[key][k]]]
    IN /\ hit # {}
       /\ s' = IF Ok(e)
               THEN [base EXCEPT !.v = [key \in DOMAIN @ |-> [k \in DOMAIN @[key] |-> IF <<key, k>> \in hit THEN val(<<key, k>>) ELSE @[key][k]]],
                                 !.rf = mark(@, "no"), !.wf = wf,
                                 \* (while the user's number could not be written, what is read is not shown)
                                 !.may = {q[1] : q \in {x \in hit : wf[x[1]][x[2]] # "yes"}},
                                 !.must = {q[1] : q \in {x \in hit : wf[x[1]][x[2]] = "no"}}]
               ELSE [base EXCEPT !.rf = mark(@, "yes"), !.wf = wf, !.may = {}, !.must = {}]
Write(e) ==
    \E q \in Places :
       LET key == q[1]
           k == q[2]
           r == Regs(key)[k]
           base == Answered(e, {key}, Ok(e))
       IN /\ s.ch[key].sid = e.s /\ r.tn \in Table(e.f) /\ r.acc # "ro" /\ r.wa = e.a
          /\ \E i \in DOMAIN s.on[key][k] :
               LET n == s.on[key][k][i]
                   w == IF r.tn = "coil" THEN <<IF n = 0 THEN 0 ELSE 1>> ELSE Wire(r.fmt, n) IN
               /\ e.d = w
               /\ s' = IF Ok(e)
                       THEN [base EXCEPT !.v[key][k] = w, !.wf[key][k] = "no", !.on[key][k] = SubSeq(@, i + 1, Len(@)), !.may = {key}, !.must = {key}]
                       ELSE [base EXCEPT !.on[key][k] = SubSeq(@, i, Len(@)), !.wf[key][k] = "yes", !.may = {}, !.must = {}]
Value(e) ==
    LET key == <<e.dev, e.ctl>> IN
    /\ key \in s.may /\ Known(key)
    /\ e.v = Text(key)
    /\ ~M!Hushed(s.p[key], Counter(key), Zero(key))
    /\ ErrMay(key, e.e) /\ ErrMust(key, e.e)
    /\ M!MayPublish(s.mui, s.p[key], e.v, e.e, e.t, Button(key))
    /\ s' = [s EXCEPT !.p[key] = M!Published(@, e.v, e.e, e.t), !.n[key] = @ + 1]
Error(e) ==
    LET key == <<e.dev, e.ctl>> IN
    /\ ErrMay(key, e.e)
    /\ s' = [s EXCEPT !.p[key] = M!Errored(@, e.e)]
State(e) ==
    LET sd == {s.ch[key].sid : key \in {x \in DOMAIN s.ch : x[1] = e.dev}} IN
    IF sd = {} THEN s' = s
    ELSE LET d == CHOOSE x \in sd : TRUE IN
         /\ e.e \in {"", "r"}
         /\ e.e = "r" => s.dv[d].bad \/ s.cfg.nolink
         /\ e.e = "" => s.dv[d].ok
         /\ s' = [s EXCEPT !.dv[d].st = e.e,
                           !.rf = [key \in DOMAIN @ |-> [k \in DOMAIN @[key] |-> IF e.e = "r" /\ key[1] = e.dev /\ @[key][k] = "no" THEN "may" ELSE @[key][k]]],
                           !.p = [key \in DOMAIN @ |-> IF e.e = "r" /\ key[1] = e.dev THEN M!Lost(@[key]) ELSE @[key]]]
\* a message of the user: one item for every register, up to the first that is no number
User(e) ==
    LET key == <<e.dev, e.ctl>>
        ch == s.ch[key].ch
        num(i) == IF M!Meant(ch, e.items[i].s) = e.items[i].s THEN e.items[i].n ELSE IntOf(M!Meant(ch, e.items[i].s))
        good(k) == \A i \in 1 .. k : e.items[i].ok
    IN s' = IF Len(e.items) # Len(ch.regs) THEN s
            ELSE [s EXCEPT !.on[key] = [k \in DOMAIN @ |-> IF good(k) THEN Append(@[k], num(k)) ELSE @[k]], !.ont[key] = e.t]
Act(e) == CASE e.a = "dead" -> s' = [s EXCEPT !.cfg.calm = FALSE]
            [] e.a = "failopen" -> s' = [s EXCEPT !.cfg.nolink = TRUE, !.cfg.calm = FALSE]
            [] e.a = "fault" -> s' = [s EXCEPT !.cfg.calm = FALSE]
            [] OTHER -> s' = s
\* the port is closed: nothing can be read or written (with several ports, maybe)
Port(e) == LET good == e.o = "open" /\ e.ok
           IN s' = [s EXCEPT !.cfg.nolink = IF good THEN @ /\ Len(s.cfg.sids) > 1 ELSE TRUE,
                             !.rf = [key \in DOMAIN @ |-> [k \in DOMAIN @[key] |-> IF ~good /\ @[key][k] = "no" THEN "may" ELSE @[key][k]]]]
End(e) == /\ Settled
          /\ s.cfg.calm => \A key \in DOMAIN s.on : \A k \in DOMAIN s.on[key] :
                \* (what was asked for last is what the device has)
                s.ont[key] # 0 /\ e.t - s.ont[key] > 5 * M!SECOND => s.on[key][k] = <<>>
          /\ s.cfg.calm => \A key \in DOMAIN s.ch : Known(key) \/ \E k \in DOMAIN Regs(key) : Regs(key)[k].acc = "wo"
          /\ s' = s
-----------------------------------------------------------------------------
(* The controls *)
Ctls(e) ==
    LET want == {LET c == s.ch[key].ch IN
                 [dev |-> key[1], title |-> s.ch[key].title, id |-> key[2], type |-> c.type, order |-> c.order, ro |-> c.ro,
                  max |-> IF c.max = "nan" /\ c.type \in {"range", "dimmer"} THEN "65535" ELSE c.max, min |-> c.min, prec |-> c.prec,
                  units |-> c.units, hidden |-> c.hidden, durable |-> \E k \in DOMAIN c.regs : c.regs[k].tn = "press_counter"] : key \in DOMAIN s.ch}
        got == {e.list[i] : i \in DOMAIN e.list}
    IN (IF Has(IOEnv, "WHERE") /\ got # want THEN PrintT(<<"missing", want \ got, "extra", got \ want>>) ELSE TRUE) /\ got = want
Init == l = 1 /\ s = [o |-> "none"]
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ CASE Ev.o = "start" -> s' = [o |-> "none", st |-> Ev]
             [] Ev.o = "cfg" -> LET x == TLCEval(C!Load(s.st.C, Get(s.st, "T", C!Nil), Get(s.st, "codes", C!Nil))) IN
                                Ev.ok /\ s' = Build(x, [calm |-> TRUE, nolink |-> FALSE, sids |-> s.st.sids])
             [] Ev.o = "ctls" -> Ctls(Ev) /\ s' = s
             [] Ev.o = "req" -> Settled /\ (IF Ev.f \in 1 .. 4 THEN Read(Ev) ELSE Write(Ev))
             [] Ev.o = "mq" -> (CASE Ev.k = "v" -> Value(Ev) [] Ev.k = "e" -> Error(Ev) [] Ev.k = "d" -> State(Ev))
             [] Ev.o = "on" -> User(Ev)
             [] Ev.o = "act" -> Act(Ev)
             [] Ev.o \in {"open", "close"} -> Port(Ev)
             [] Ev.o = "end" -> End(Ev)
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
