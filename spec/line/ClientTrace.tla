----------------------------- MODULE ClientTrace -----------------------------
(* Recorded runs of the real serial client against a simulated line, checked event by event. The state kept here *)
(* is the state of the specification (connection of every device, what is known of its registers, pending        *)
(* writes, events, the port); every event of the real code has to be one the specification allows in that state. *)
(* The environment variable PROP selects the property whose obligations are enforced ("all": every one).         *)
EXTENDS LineRules, TraceIO

VARIABLES l, S
vars == <<l, S>>

PROP == IOEnv.PROP
\* ("= TRUE": evaluated as a value, so that a disjunction inside is no choice of next states)
Chk(p, c) == (IF PROP # "all" /\ PROP # p THEN TRUE ELSE IF c THEN TRUE ELSE PrintT(<<"REJECT", p, l>>) /\ FALSE) = TRUE

Ev == Trace[l]
MS == 1000
SEC == 1000000
NoT == -1000000000     \* "long before the start"

-----------------------------------------------------------------------------
(* The scenario's configuration: cfg.D devices, cfg.R registers (flat), filled in by the generator *)
D(s, d) == s.cfg.D[d]
R(s, i) == s.cfg.R[i]
Regs(s) == 1 .. Len(s.cfg.R)
Devs(s) == 1 .. Len(s.cfg.D)

NewDev(c) == [st |-> "U", rlo |-> 0, rhi |-> 0, lastok |-> NoT, must |-> "", k |-> 0, tca |-> NoT, cya |-> -1,
              att |-> 0, dsince |-> NoT, done |-> {}, holes |-> "y", on |-> 0, susp |-> -1, lowend |-> NoT, failcy |-> -1,
              evs |-> {}, evset |-> FALSE, evmay |-> FALSE, asked |-> FALSE, askset |-> {}, askcy |-> -1, askok |-> FALSE, known |-> [x \in {} |-> 0]]
NewReg == [cur |-> <<-1>>, lp |-> NoT, pub |-> 0, pend |-> <<>>, base |-> 0, ff |-> -1, wf |-> 0, rf |-> 1, bad |-> FALSE,
           ex |-> FALSE, inw |-> 0, wv |-> <<>>, def |-> FALSE, rdok |-> FALSE, since |-> 0, re |-> FALSE, evv |-> FALSE]
NoLast == [kind |-> "none", d |-> 0, cy |-> -1, ok |-> FALSE, got |-> {}]

Start == /\ Ev.o = "start"
         /\ S' = [cfg |-> [D |-> Ev.D, R |-> Ev.R, rl |-> Ev.rl, oc |-> [fail |-> Ev.oc.fail * MS, cyc |-> Ev.oc.cyc,
                                                                            reopen |-> Ev.oc.reopen * MS], tcp |-> Ev.tcp, ep |-> Ev.ep,
                           slow |-> Ev.slow, fresh |-> Ev.fresh, strict |-> Get(Ev, "strict", FALSE)],
                  dv |-> [d \in DOMAIN Ev.D |-> NewDev(Ev.D[d])],
                  rg |-> [i \in DOMAIN Ev.R |-> NewReg],
                  last |-> NoLast, t |-> 0,
                  port |-> "closed", openat |-> 0, failat |-> NoT, closedat |-> 0,
                  \* polls of lost devices since the port was surely / possibly of use
                  goodat |-> 0, dcyA |-> {}, goodmax |-> 0, dcyB |-> {},
                  ack |-> <<0, 0>>, owe |-> {}, unexp |-> {}, unexpcy |-> 0, evt |-> 0, evcy |-> -1, evfail |-> 0, evbad |-> FALSE, everr |-> {}, evclr |-> {}, evq |-> <<>>,
                  sec |-> -1, low |-> 0]

-----------------------------------------------------------------------------
(* Classification of a request by its address: channels live below 1000, setup items from 1000 *)
WriteFn == {5, 6, 15, 16}
Tab(f) == CASE f \in {1, 5, 15} -> 1 [] f = 2 -> 2 [] f \in {3, 6, 16} -> 3 [] f = 4 -> 4 [] OTHER -> 0
Kind(e) == IF e.f \in WriteFn THEN IF e.a >= 1000 THEN "setup" ELSE IF e.a = 114 THEN "cont" ELSE "wr"
           ELSE IF e.a >= 1000 THEN "setuprd" ELSE IF e.a = 250 THEN "fw" ELSE "poll"
Ok(e) == e.r = "ok" /\ ~e.late
Perm(e) == e.r = "exc" /\ e.c \in {1, 2, 3} /\ ~e.late
Pol(s, d) == Enabled(D(s, d).tmo, D(s, d).cyc)

\* values
Val(r, ws) == IF r.str # "" THEN Chars(ws, r.le, r.sw, r.str)
              ELSE IF r.tab \in {1, 2} THEN <<ws[1], 0, 0, 0>>
              ELSE Field(Digits(ws, r.le, r.sw), r.off, r.w)
PubVal(r, v) == IF r.str # "" THEN v ELSE Rev(v)   \* published most significant first
SubSeqAt(ws, from, n) == [k \in 1 .. n |-> ws[from + k - 1]]

-----------------------------------------------------------------------------
(* Transfer results *)
ResOk(s, d, t) ==
  IF ~Pol(s, d) THEN s
  ELSE LET x == s.dv[d] IN
       [s EXCEPT !.dv[d] = [x EXCEPT !.rlo = D(s, d).cyc, !.rhi = D(s, d).cyc, !.lastok = t,
                                     !.must = IF x.st = "C" THEN "" ELSE "C"]]
ResFail(s, d, t, twice) ==
  IF ~Pol(s, d) THEN s
  ELSE LET x == s.dv[d]
           hi == Max(x.rhi - 1, 0)
           lo == Max(x.rlo - (IF twice THEN 2 ELSE 1), 0)
       IN [s EXCEPT !.dv[d] = [x EXCEPT !.rlo = lo, !.rhi = hi, !.failcy = IF Kind(Ev) = "poll" /\ ~Perm(Ev) THEN Ev.cy ELSE @,
                                        \* a preparation that fails has to be repeated
                                        !.must = IF \/ x.st # "D" /\ hi = 0 /\ t - x.lastok > D(s, d).tmo
                                                    \/ x.st = "C" /\ Kind(Ev) \in {"setup", "setuprd"}
                                                 THEN "D" ELSE ""]]

\* Nothing else may happen on the line before a required change of the connection state was announced
NoMust(s) == Chk("P09", \A d \in Devs(s) : s.dv[d].must = "")
\* ... and before the outcome of a write was announced
NoOwe(s) == /\ Chk("P08", s.owe = {})
            \* ... and before it was said that events do not come, or come again
            /\ Chk("P12", s.everr = {} /\ s.evclr = {})
Excluded(s) == {i \in Regs(s) : R(s, i).sp > 0 /\ s.rg[i].ex}
EvLost(s) == IF s.evfail < 10 THEN [s EXCEPT !.evfail = @ + 1]
             ELSE [s EXCEPT !.evfail = 0, !.evbad = TRUE, !.everr = Excluded(s)]
EvGood(s) == [s EXCEPT !.evfail = 0, !.evbad = FALSE, !.evclr = IF s.evbad THEN Excluded(s) ELSE {}]

-----------------------------------------------------------------------------
(* The limiter's windows start at whole seconds *)
Sec(t) == (t - 1) \div SEC
(* A read request is complete once everything read by it was published: what it was made of is known then. *)
FinPoll(s) ==
  LET x == s.last
      regs == {[a |-> R(s, i).a, n |-> R(s, i).n] : i \in x.got}
      dd == D(s, x.d)
      end == SetMax({r.a + r.n : r \in regs})
      bits == x.tab \in {1, 2}
      single == Cardinality(regs) = 1
      n0 == end - x.a
      holes == HasHole(regs, x.a, end)
      cap == Cap(bits, dd.maxread)
      hole == IF bits THEN dd.bithole ELSE dd.hole
      perm == x.exc
  IN [good |->
        /\ Chk("P05", x.got # {} =>
              /\ x.a = SetMin({r.a : r \in regs})
              /\ x.n = Max(n0, dd.minread)
              /\ single \/ n0 <= cap
              /\ HoleOk(regs, x.a, end, hole)
              /\ holes => s.dv[x.d].holes # "n")
        /\ Chk("P11", \A i \in x.got : ~s.rg[i].bad)
        /\ Chk("P05", x.got # {}),
      s |-> [s EXCEPT !.last = [x EXCEPT !.kind = "done"],
                      !.dv[x.d].holes = IF perm /\ ~x.lost /\ x.got # {} /\ holes THEN "n" ELSE @,
                      !.dv[x.d].lowend = IF x.got # {} /\ \A i \in x.got : ~R(s, i).hi THEN x.t2 ELSE @,
                      !.rg = [i \in Regs(s) |->
                                IF i \in x.got /\ perm /\ ~x.lost /\ ~holes /\ ~dd.cont THEN [s.rg[i] EXCEPT !.bad = TRUE]
                                ELSE s.rg[i]],
                      \* registers read with low priority per window of the limiter
                      !.low = IF \A i \in x.got : R(s, i).hi THEN s.low
                              ELSE (IF Sec(x.tc) = s.sec THEN s.low ELSE 0) + Cardinality(x.got),
                      !.sec = IF \A i \in x.got : R(s, i).hi THEN s.sec ELSE Sec(x.tc),
                      !.goodat = IF s.dv[x.d].st # "D" THEN x.t2 ELSE @,
                      !.dcyA = IF s.dv[x.d].st # "D" THEN {} ELSE @ \cup {x.cy}]]

BusEvent(e) == e.o \in {"req", "evr", "evn", "open", "close", "junk", "end", "spin"}
Finalize(s, e) == IF s.last.kind = "poll" /\ (BusEvent(e) \/ e.cy # s.last.cy) THEN FinPoll(s) ELSE [good |-> TRUE, s |-> s]

-----------------------------------------------------------------------------
(* Obligations that hold at every moment *)
\* bus time one cycle may take: every device may fail to answer a few times
Slack(s) == s.cfg.slow
Reach(s, d) == s.port = "open" /\ s.dv[d].st = "C" /\ s.dv[d].susp < 0
Pollable(s, d) == {i \in Regs(s) : R(s, i).d = d /\ R(s, i).rd /\ ~R(s, i).fwm /\ ~s.rg[i].bad}
Pause(s, i) == IF R(s, i).hi THEN R(s, i).per ELSE Max(R(s, i).lim, D(s, R(s, i).d).minint)
Fresh(s, t, i) ==
  \* (a register with events is read once after every connection, then its events tell)
  R(s, i).rd /\ (R(s, i).sp # 1 \/ ~s.rg[i].ex \/ ~(s.rg[i].rdok \/ s.rg[i].evv)) /\ ~R(s, i).fwm /\ ~s.rg[i].bad
  /\ Reach(s, R(s, i).d) /\ s.cfg.fresh > 0 =>
     t - SetMax({s.rg[i].pub, s.dv[R(s, i).d].on, s.openat}) <= s.cfg.fresh + Pause(s, i)
Timely(s, t) ==
  /\ Chk("P08", \A i \in Regs(s) :
        s.rg[i].pend # <<>> /\ Reach(s, R(s, i).d) /\ t - s.rg[i].since < D(s, R(s, i).d).wrfail * SEC =>
           t - SetMax({s.rg[i].base, s.rg[i].pend[1].t, s.dv[R(s, i).d].on, s.openat}) <= Slack(s))
  /\ Chk("P03", \A i \in Regs(s) : Fresh(s, t, i))
  \* (a register whose events are not known to be enabled is polled)
  /\ Chk("P13", \A i \in Regs(s) : R(s, i).sp > 0 => Fresh(s, t, i))
  \* (what the device refused before its connection was lost is tried again after it)
  /\ Chk("P11", \A i \in Regs(s) : Fresh(s, t, i))
  \* (after polling is resumed, every channel of the device is polled again)
  /\ Chk("P24", \A i \in Regs(s) : Fresh(s, t, i))
  \* a disconnected device is tried again
  /\ Chk("P09", \A d \in Devs(s) :
        s.port = "open" /\ s.dv[d].st = "D" /\ s.dv[d].susp < 0 /\ Pollable(s, d) # {} =>
           t - SetMax({s.dv[d].att, s.openat, s.dv[d].dsince, s.dv[d].on}) <=
              10 * SEC + Slack(s) + SetMin({Pause(s, i) : i \in Pollable(s, d)}))
  \* events are asked for while some device has them enabled
  /\ Chk("P12", (\E d \in Devs(s) : s.dv[d].evset) /\ s.port = "open" =>
           t - SetMax({s.evt, s.openat}) <= 3 * SEC + Slack(s))
  /\ Chk("P14", s.port = "closed" => t - Max(s.failat, s.closedat) <= s.cfg.oc.reopen + SEC)

-----------------------------------------------------------------------------
(* A standard request to a device *)
Same(s, i, e) == R(s, i).d = e.dev + 1
\* the pending value a write at this moment must carry: the newest one, or (while the write was being prepared) the
\* one before it
Choices(s, i, t) ==
  LET p == s.rg[i].pend
      slack == D(s, R(s, i).d).rq + (IF D(s, R(s, i).d).rq > 0 THEN 40 * MS ELSE 0)
  IN {k \in DOMAIN p : /\ p[k].t <= t
                       /\ \A m \in k + 1 .. Len(p) : p[m].t >= t - slack}
LastBefore(s, i, t) == SetMax({0} \cup Choices(s, i, t))
Carries(s, i, e, v) ==
  LET r == R(s, i) IN
  CASE r.wk = "coil" -> e.f = 5 /\ e.a = r.wa /\ e.n = 1 /\ e.d[1] = (IF v = <<0, 0, 0, 0>> THEN 0 ELSE 1)
    [] r.wk = "multi" -> /\ e.f = 16 /\ e.a = r.wa
                         /\ IF r.str # "" THEN e.n \in 1 .. r.n /\ Chars(e.d, r.le, r.sw, r.str) = v
                                               \* (a shorter string leaves the rest of the register as it was)
                                               /\ (s.cfg.strict => e.n = r.n)
                            ELSE e.n = r.n /\ Field(Digits(e.d, r.le, r.sw), r.off, r.w) = v
    [] r.wk = "single" /\ r.n = 1 -> /\ e.f = 6 /\ e.a = r.wa
                                     /\ IF r.str # "" THEN Chars(e.d, FALSE, r.sw, r.str) = v
                                        ELSE Field(Digits(e.d, FALSE, r.sw), r.off, r.w) = v
    [] r.wk = "single" -> /\ e.f = 6 /\ e.a = r.wa + r.n - 1 - s.rg[i].inw
                          /\ e.d[1] = (IF r.sw THEN Swap(v[s.rg[i].inw + 1]) ELSE v[s.rg[i].inw + 1])
    [] OTHER -> FALSE
\* the value each candidate register would be writing
WrVals(s, i, e) == IF s.rg[i].inw > 0 THEN {s.rg[i].wv} ELSE {s.rg[i].pend[k].v : k \in Choices(s, i, e.t)}
WrCand(s, e) == {i \in Regs(s) : /\ Same(s, i, e) /\ R(s, i).wk # "none"
                                 /\ (s.rg[i].inw > 0 \/ s.rg[i].pend # <<>>)
                                 /\ \E v \in WrVals(s, i, e) : Carries(s, i, e, v)}
\* the bits of the words that do not belong to the register: as last read or written, or as they are in the device
KnownAt(s, d, a) == IF a \in DOMAIN s.dv[d].known THEN s.dv[d].known[a] ELSE -1
Preserved(s, i, e) ==
  LET r == R(s, i)
      new == Digits(e.d, r.le, r.sw)
      dd == R(s, i).d
      was == [k \in 1 .. r.n |-> LET w == KnownAt(s, dd, r.a + k - 1)
                                 IN IF w # -1 THEN w ELSE IF s.cfg.strict /\ k \in DOMAIN e.ov THEN e.ov[k] ELSE -1]
      old == Digits(was, r.le, r.sw)
  IN r.w = 16 * r.n \/ r.str # "" \/ r.tab # 3 \/ ~r.rd \/ (\E k \in 1 .. r.n : was[k] = -1)
     \/ \A b \in 0 .. 16 * r.n - 1 : (b < r.off \/ b >= r.off + r.w) => Bit(new, b) = Bit(old, b)

Learn(s, d, a, ws) ==
  [s EXCEPT !.dv[d].known = [x \in DOMAIN @ \cup (a .. a + Len(ws) - 1) |->
                               IF x >= a /\ x < a + Len(ws) THEN ws[x - a + 1] ELSE @[x]]]

\* after a write attempt
AfterWrite(s, i, e, v) ==
  LET r == R(s, i)
      t == e.t
      fin == r.wk # "single" \/ r.n = 1 \/ s.rg[i].inw = r.n - 1
      sv == {k \in DOMAIN s.rg[i].pend : s.rg[i].pend[k].v = v /\ s.rg[i].pend[k].t <= t}
      k == IF sv = {} THEN 0 ELSE SetMax(sv)
      \* (what was set meanwhile is no news if it is the same value in the end)
      x == s.rg[i]
      rest == IF x.pend # <<>> /\ x.pend[Len(x.pend)].v = v THEN <<>> ELSE SubSeq(x.pend, k + 1, Len(x.pend))
  IN IF Ok(e)
     THEN IF ~fin THEN [s EXCEPT !.rg[i].inw = @ + 1, !.rg[i].wv = v]
          ELSE LET s1 == [s EXCEPT !.rg[i] = [x EXCEPT !.inw = 0, !.pend = rest, !.wf = IF rest = <<>> THEN 0 ELSE 1, !.ff = -1,
                                                       !.since = IF rest = <<>> THEN 0 ELSE rest[1].t,
                                                       !.cur = v, !.base = e.t2, !.wv = v],
                                   !.owe = @ \cup {i},
                                   !.last = [kind |-> "wr", d |-> r.d, cy |-> e.cy, i |-> i, ok |-> TRUE, got |-> {}]]
                   s2 == IF r.tab = 3 /\ r.str = "" /\ r.rd THEN Learn(s1, r.d, r.a, IF r.n = Len(e.d) THEN e.d ELSE Wire(SubSeq(v, 1, r.n), FALSE, r.sw))
                         ELSE s1
               IN ResOk(s2, r.d, e.t2)
     ELSE IF Perm(e)
     THEN ResOk([s EXCEPT !.rg[i] = [x EXCEPT !.inw = 0, !.pend = rest, !.wf = 2, !.ff = -1, !.base = e.t2,
                                           !.since = IF rest = <<>> THEN 0 ELSE rest[1].t],
                          !.owe = @ \cup {i},
                          !.last = [kind |-> "wr", d |-> r.d, cy |-> e.cy, i |-> i, ok |-> FALSE, got |-> {}]], r.d, e.t2)
     ELSE \* stays pending; after max_write_fail_time it may be given up
          ResFail([s EXCEPT !.rg[i] = [x EXCEPT !.inw = 0, !.wf = 2, !.ff = IF @ < 0 THEN e.t ELSE @, !.base = e.t2],
                          !.owe = @ \cup {i},
                          !.last = [kind |-> "wr", d |-> r.d, cy |-> e.cy, i |-> i, ok |-> FALSE, got |-> {}]], r.d, e.t2, FALSE)

\* setup items: indices of the items an address range of a write completes
SetupHit(s, d, e) == {k \in DOMAIN D(s, d).setup : D(s, d).setup[k].a >= e.a /\ D(s, d).setup[k].a < e.a + e.n}
SetupWord(s, d, a, ov) == LET w == KnownAt(s, d, a) IN IF w # -1 THEN w ELSE ov
\* which items a setup write stands for: a run of the configured order
SetupFits(s, d, e, hit) ==
  LET su == D(s, d).setup
      part == {k \in hit : su[k].part}
  IN IF hit = {} THEN FALSE
     ELSE IF part # {} \* a bit field: alone in its request
     THEN \E k \in part \ s.dv[d].done :
            /\ e.n = su[k].n
            /\ LET old == SetupWord(s, d, e.a, IF e.ov = <<>> THEN -1 ELSE e.ov[1])
               IN old = -1 \/ e.d[1] = Place(<<old>>, su[k].off, su[k].w, su[k].v)[1]
     ELSE /\ \A k \in hit : \A x \in 1 .. su[k].n : /\ su[k].a + x - 1 < e.a + e.n
                                                    /\ e.d[su[k].a - e.a + x] = su[k].v[x]
          /\ \A a \in e.a .. e.a + e.n - 1 : \E k \in hit : a >= su[k].a /\ a < su[k].a + su[k].n
SetupDone(s, d, e) ==
  LET su == D(s, d).setup
      hit == SetupHit(s, d, e)
      part == {k \in hit \ s.dv[d].done : su[k].part}
  IN IF \E k \in hit : su[k].part THEN IF part = {} THEN {} ELSE {SetMin(part)} ELSE hit

Req ==
  /\ Ev.o = "req"
  /\ LET F == Finalize(S, Ev)
         s == [F.s EXCEPT !.t = Ev.t]
         d == Ev.dev + 1
         kind == Kind(Ev)
         dd == D(s, d)
         x == s.dv[d]
         newatt == x.cya # Ev.cy
         again == kind = "setup" /\ dd.setup # <<>> /\ x.done = DOMAIN dd.setup
         sr == IF again THEN [s EXCEPT !.dv[d].done = {}] ELSE s
         \* time of the attempt for the pauses between attempts at a disconnected device
         s1 == [s EXCEPT !.goodmax = IF x.st # "D" THEN Ev.t2 ELSE @,
                         !.dcyB = IF x.st # "D" THEN {} ELSE @ \cup {Ev.cy},
                         !.dcyA = IF x.st # "D" THEN @ ELSE @ \cup {Ev.cy},
                         !.dv[d].susp = -1,
                         !.dv[d].att = Ev.t2, !.dv[d].cya = Ev.cy,
                         !.dv[d].tca = IF newatt THEN Ev.tc ELSE @,
                         !.dv[d].k = IF newatt /\ x.st = "D" /\ ~(kind = "poll" /\ Perm(Ev)) THEN @ + 1 ELSE @]
     IN /\ F.good /\ NoMust(s) /\ NoOwe(s) /\ Timely(s, Ev.t)
        /\ Chk("P04", d \in Devs(s))
        /\ Chk("P05", ~Ev.mal)
        /\ Chk("P14", s.port = "open")
        /\ Chk("P24", x.susp < 0 \/ Ev.t - x.susp >= 600 * SEC)
        /\ Chk("P12", s.evq = <<>> /\ (s.unexp # {} => Ev.cy = s.unexpcy))
        /\ Chk("P09", x.st = "D" /\ newatt /\ dd.onepri /\ x.k >= 1 =>
                        Ev.tc - x.tca >= Backoff(x.k, 500 * MS, 10 * SEC))
        \* after too many failed polls the port must have been closed
        /\ Chk("P14", (s.cfg.oc.fail >= 0 /\ s.cfg.oc.cyc >= 0 /\ Cardinality(s.dcyB) > Max(1, s.cfg.oc.cyc)
                        /\ Ev.t - Max(s.goodmax, s.openat) > s.cfg.oc.fail + 3 * SEC) => FALSE)
        /\ CASE kind = "poll" ->
                  /\ Chk("P10", Pol(s, d) /\ dd.setup # <<>> => x.st = "C" /\ x.done = DOMAIN dd.setup)
                  /\ Chk("P10", dd.setup # <<>> => x.done = DOMAIN dd.setup)
                  /\ Chk("P13", dd.ev # <<>> /\ s.cfg.ep => x.asked)
                  \* every register with events was asked for
                  /\ Chk("P13", x.askok /\ x.askcy = Ev.cy =>
                        \A i \in Regs(s) : R(s, i).d = d /\ R(s, i).sp > 0 /\ ~R(s, i).fwm /\ R(s, i).unsv = <<-1>> =>
                                              <<R(s, i).ety, R(s, i).a>> \in x.askset)
                  /\ LET s2 == [s1 EXCEPT !.last = [kind |-> "poll", d |-> d, cy |-> Ev.cy, ok |-> Ok(Ev), got |-> {},
                                                    a |-> Ev.a, n |-> Ev.n, tab |-> Tab(Ev.f), v |-> Ev.v, tc |-> Ev.tc,
                                                    exc |-> Perm(Ev), lost |-> FALSE, t2 |-> Ev.t2]]
                     IN S' = IF Ok(Ev) THEN ResOk(s2, d, Ev.t2) ELSE ResFail(s2, d, Ev.t2, FALSE)
             [] kind = "wr" ->
                  LET C == WrCand(s, Ev)
                  IN /\ Chk("P08", C # {})
                     /\ Chk("P10", dd.setup # <<>> => x.done = DOMAIN dd.setup)
                     /\ Chk("P08", x.st # "D")
                     /\ IF C = {} THEN S' = [s1 EXCEPT !.last = NoLast]
                        ELSE \E i \in C : \E v \in WrVals(s, i, Ev) :
                               /\ Carries(s, i, Ev, v)
                               /\ Chk("P07", Preserved(s, i, Ev))
                               \* given up once writing failed for longer than allowed
                               /\ Chk("P08", s.rg[i].ff >= 0 => Ev.t - s.rg[i].ff <= (dd.wrfail + 1) * SEC + Slack(s))
                               /\ S' = AfterWrite(s1, i, Ev, v)
             [] kind = "setup" ->
                  \* a device whose connection is not watched is prepared again and again
                  LET hit == SetupHit(sr, d, Ev)
                      now == SetupDone(sr, d, Ev)
                      done == sr.dv[d].done \cup now
                  IN /\ Chk("P10", ~again \/ ~Pol(s, d))
                     /\ Chk("P10", SetupFits(sr, d, Ev, hit))
                     \* in the configured order, where it was asked to be kept
                     /\ Chk("P10", dd.order => \A k \in now : \A j \in 1 .. k - 1 : j \in done)
                     /\ S' = IF Ok(Ev) \/ Perm(Ev)
                             THEN LET s2 == [s1 EXCEPT !.dv[d].done = done, !.last = NoLast]
                                      s3 == IF Ok(Ev) THEN Learn(s2, d, Ev.a, Ev.d) ELSE s2
                                  IN IF done = DOMAIN dd.setup THEN ResOk(s3, d, Ev.t2) ELSE s3
                             ELSE ResFail([s1 EXCEPT !.dv[d].done = {}, !.last = NoLast], d, Ev.t2, FALSE)
             [] kind = "setuprd" ->
                  S' = IF Ok(Ev) THEN ResOk(Learn([s1 EXCEPT !.last = NoLast], d, Ev.a, Ev.v), d, Ev.t2)
                       ELSE ResFail([s1 EXCEPT !.last = NoLast], d, Ev.t2, TRUE)
             [] kind = "cont" -> S' = IF Ok(Ev) \/ Perm(Ev) THEN [s1 EXCEPT !.last = NoLast]
                                      ELSE ResFail([s1 EXCEPT !.last = NoLast], d, Ev.t2, FALSE)
             [] OTHER -> S' = [s1 EXCEPT !.last = NoLast]

-----------------------------------------------------------------------------
Conn ==
  /\ Ev.o = "conn"
  /\ LET d == Ev.dev + 1
         x == S.dv[d]
         t == Ev.t
     IN IF Ev.st = "C"
        THEN /\ Chk("P09", x.must = "C")
             /\ S' = [S EXCEPT !.dv[d] = [x EXCEPT !.st = "C", !.must = "", !.k = 0, !.on = t], !.t = t, !.goodmax = t, !.dcyB = {}]
        ELSE LET failed == x.rlo = 0 /\ t - x.lastok > D(S, d).tmo /\ Pol(S, d)
             IN /\ Chk("P09", x.must \in {"D", "X"} \/ failed)
                /\ S' = [S EXCEPT !.dv[d] = [x EXCEPT !.st = "D", !.must = "", !.k = IF x.failcy = Ev.cy THEN 1 ELSE 0, !.done = {},
                                                      !.holes = "y", !.evset = FALSE, !.evs = {}, !.asked = FALSE, !.dsince = t],
                                  !.rg = [i \in Regs(S) |-> IF R(S, i).d = d
                                            THEN [S.rg[i] EXCEPT !.bad = FALSE, !.lp = NoT, !.ex = FALSE, !.inw = 0, !.rdok = FALSE, !.evv = FALSE] ELSE S.rg[i]],
                                  \* everything is tried anew after that, what has just failed as well
                                  !.last = IF @.kind = "poll" /\ @.d = d THEN [@ EXCEPT !.lost = TRUE] ELSE @,
                                  !.dcyA = IF x.cya = Ev.cy THEN @ \cup {Ev.cy} ELSE @,
                                  !.t = t]

-----------------------------------------------------------------------------
(* Publications *)
InRange(s, i) == s.last.kind = "poll" /\ R(s, i).d = s.last.d /\ R(s, i).tab = s.last.tab
                 /\ R(s, i).a >= s.last.a /\ R(s, i).a + R(s, i).n <= s.last.a + s.last.n /\ R(s, i).rd
Pub ==
  /\ Ev.o = "pub"
  /\ LET F == Finalize(S, Ev)
         s == [F.s EXCEPT !.t = Ev.t]
         i == Ev.i + 1
         r == R(s, i)
         x == s.rg[i]
         fromPoll == InRange(s, i)
         v == IF fromPoll /\ s.last.ok THEN Val(r, SubSeqAt(s.last.v, r.a - s.last.a + 1, r.n)) ELSE x.cur
         bad == fromPoll /\ s.last.ok /\ (v = r.errv \/ v = r.unsv)
         fromEv == ~fromPoll /\ s.evq # <<>> /\ i \in s.evq[1].regs
         q1 == IF s.evq[1].regs = {i} THEN Tail(s.evq) ELSE [s.evq EXCEPT ![1].regs = @ \ {i}]
     IN /\ F.good
        /\ Chk("P08", (Ev.k = "r") => ~Ev.we)
        /\ Chk("P08", x.wf = 0 => ~Ev.we)
        /\ Chk("P08", x.wf = 2 /\ i \in s.owe => Ev.we /\ Ev.k = "e")
        /\ Chk("P08", i \in s.owe /\ s.last.kind = "wr" /\ s.last.ok => Ev.k = "r" /\ Ev.v = PubVal(r, x.cur))
        /\ IF fromPoll
           THEN /\ Chk("P05", s.last.ok => Ev.def /\ Ev.v = PubVal(r, v))
                \* the error of reading is shown, and only it
                /\ Chk("P11", Ev.re = (~s.last.ok \/ bad \/ r.fwm))
                /\ Chk("P05", (Ev.k = "e") = (Ev.re \/ Ev.we))
                /\ Chk("P04", IF s.last.ok THEN Ev.v = PubVal(r, v) ELSE Ev.re)
                /\ Chk("P11", ~x.bad)
                /\ Chk("P11", r.fwm /\ x.rdok => x.lp = NoT)
                /\ Chk("P13", x.ex /\ x.rdok => D(s, r.d).sponly)
                /\ Chk("P03", x.lp # NoT /\ r.sp = 0 =>
                         /\ r.hi => s.last.tc - x.lp >= r.per
                         /\ ~r.hi => s.last.tc - x.lp >= r.lim)
                /\ Chk("P03", ~r.hi /\ D(s, r.d).minint > 0 /\ s.dv[r.d].lowend # NoT /\ s.dv[r.d].st = "C"
                              /\ s.dv[r.d].on <= s.dv[r.d].lowend /\ s.last.got = {} =>
                         s.last.tc - s.dv[r.d].lowend >= D(s, r.d).minint)
                /\ Chk("P02", ~r.hi /\ s.cfg.rl > 0 /\ s.last.got = {} =>
                         Sec(s.last.tc) # s.sec \/ s.low <= s.cfg.rl)
                /\ S' = [(IF s.last.ok /\ r.tab = 3 THEN Learn(s, r.d, r.a, SubSeqAt(s.last.v, r.a - s.last.a + 1, r.n)) ELSE s)
                          EXCEPT !.rg[i] = [x EXCEPT !.cur = v, !.lp = IF s.last.lost THEN NoT ELSE s.last.tc, !.pub = Ev.t, !.def = @ \/ s.last.ok, !.rdok = @ \/ s.last.ok,
                                                    !.bad = @ \/ (s.last.ok /\ v = r.unsv), !.re = Ev.re],
                                 !.last.got = @ \cup {i}]
           ELSE IF fromEv
           THEN /\ Chk("P12", Ev.v = PubVal(r, s.evq[1].v) /\ (Ev.k = "r" \/ Ev.re \/ Ev.we))
                /\ S' = [s EXCEPT !.evq = q1, !.rg[i].cur = s.evq[1].v, !.rg[i].def = TRUE, !.rg[i].evv = TRUE, !.rg[i].re = Ev.re]
           ELSE /\ Chk("P05", Ev.k = "r" /\ x.cur # <<-1>> => Ev.v = PubVal(r, x.cur))
                \* (that events are read again is said of registers not read yet as well)
                /\ Chk("P05", Ev.k = "r" => IF Ev.def THEN x.cur # <<-1>> ELSE s.evcy = Ev.cy /\ x.cur = <<-1>>)
                \* errors of reading come and go with events and with the port
                /\ Chk("P12", i \in s.everr => Ev.re)
                /\ Chk("P12", i \in s.evclr => ~Ev.re)
                /\ Chk("P11", Ev.re /\ ~x.re => s.port = "closed" \/ r.fwm \/ s.dv[r.d].cya = Ev.cy \/ (r.sp > 0 /\ s.evcy = Ev.cy /\ s.evbad))
                /\ Chk("P11", ~Ev.re /\ x.re => r.sp > 0 /\ s.evcy = Ev.cy /\ ~s.evbad)
                /\ S' = [s EXCEPT !.owe = @ \ {i}, !.everr = @ \ {i}, !.evclr = @ \ {i}, !.rg[i].re = Ev.re, !.rg[i].lp = IF Ev.re THEN NoT ELSE @, !.rg[i].pub = IF Ev.re THEN Ev.t ELSE @]

-----------------------------------------------------------------------------
(* Values set by the user, and what happens around *)
Set ==
  /\ Ev.o = "set"
  /\ LET F == Finalize(S, Ev)
         s == [F.s EXCEPT !.t = Ev.t]
         i == Ev.i + 1
         x == s.rg[i]
     IN /\ F.good
        /\ Chk("P08", Ev.ok # Get(Ev, "bad", FALSE))
        \* a text that is no value changes nothing
        /\ IF ~Ev.ok THEN S' = s
           ELSE LET new == [v |-> Ev.xv, t |-> Ev.t]
               \* what was pending was given up meanwhile
               old == x.pend = <<>> \/ Ev.t - x.since > (D(s, R(s, i).d).wrfail + 2) * SEC + Slack(s)
           IN S' = [s EXCEPT !.rg[i] = [x EXCEPT !.pend = IF old THEN <<new>> ELSE Append(@, new), !.wf = IF @ = 0 THEN 1 ELSE @,
                                                 !.since = IF old THEN Ev.t ELSE @, !.ff = IF old THEN -1 ELSE @,
                                                 !.base = IF x.pend = <<>> THEN Ev.t ELSE @]]
Act ==
  /\ Ev.o = "act"
  /\ LET F == Finalize(S, Ev)
         s == [F.s EXCEPT !.t = Ev.t]
     IN /\ F.good
        /\ CASE Ev.a = "susp0" ->
                  LET d == Ev.d + 1 IN
                  S' = [s EXCEPT !.dv[d].must = IF s.dv[d].st = "D" THEN @ ELSE "X"]
             [] Ev.a = "susp" ->
                  LET d == Ev.d + 1 IN
                  /\ Chk("P24", Ev.ok = D(s, d).rdable)
                  /\ Chk("P24", Ev.ok => s.dv[d].st = "D")
                  /\ S' = IF Ev.ok THEN [s EXCEPT !.dv[d].susp = Ev.t] ELSE [s EXCEPT !.dv[d].must = ""]
             [] Ev.a = "res" ->
                  LET d == Ev.d + 1 IN
                  /\ Chk("P24", Ev.ok = (s.dv[d].susp >= 0))
                  /\ S' = [s EXCEPT !.dv[d].susp = -1, !.dv[d].dsince = Ev.t,
                                    !.rg = [i \in Regs(s) |-> IF R(s, i).d = d THEN [s.rg[i] EXCEPT !.bad = FALSE, !.lp = NoT] ELSE s.rg[i]]]
             [] OTHER -> S' = s

-----------------------------------------------------------------------------
(* The port *)
Open ==
  /\ Ev.o = "open"
  /\ LET F == Finalize(S, Ev)
         s == F.s
     IN /\ F.good /\ Timely(s, Ev.t)
        /\ Chk("P14", s.port = "closed" /\ Ev.t - s.failat >= s.cfg.oc.reopen)
        /\ S' = IF Ev.ok
                THEN [s EXCEPT !.port = "open", !.openat = Ev.t, !.goodat = Ev.t, !.dcyA = {}, !.goodmax = Ev.t, !.dcyB = {}, !.t = Ev.t, !.last = NoLast,
                               !.owe = {}]
                ELSE [s EXCEPT !.failat = Ev.t, !.t = Ev.t]
Close ==
  /\ Ev.o = "close"
  /\ LET F == Finalize(S, Ev)
         s == F.s
     IN /\ F.good
        /\ Chk("P14", /\ s.port = "open"
                      /\ s.cfg.oc.fail >= 0 /\ s.cfg.oc.cyc >= 0
                      /\ Ev.t - s.goodat > s.cfg.oc.fail
                      /\ Cardinality(s.dcyA \cup {Ev.cy}) >= s.cfg.oc.cyc - 1
                      /\ \E d \in Devs(s) : s.dv[d].cya = Ev.cy /\ s.dv[d].st = "D")
        /\ S' = [s EXCEPT !.port = "closed", !.closedat = Ev.t, !.t = Ev.t, !.last = NoLast,
                          !.dv = [d \in Devs(s) |-> [s.dv[d] EXCEPT !.rlo = 0]],
                          !.rg = [i \in Regs(s) |-> [s.rg[i] EXCEPT !.lp = NoT, !.rf = 1]]]

-----------------------------------------------------------------------------
(* Fast Modbus events *)
Evn ==
  /\ Ev.o = "evn"
  /\ LET F == Finalize(S, Ev)
         s == [F.s EXCEPT !.t = Ev.t]
         d == Get(Ev, "dev", -1) + 1
         en == {<<Ev.bits[k].ty, Ev.bits[k].a>> : k \in {k \in DOMAIN Ev.bits : Ev.bits[k].b = 1}}
         dis == {<<Ev.bits[k].ty, Ev.bits[k].a>> : k \in {k \in DOMAIN Ev.bits : Ev.bits[k].b = 0}}
         asked == {<<Ev.items[k].ty, Ev.items[k].a>> : k \in {k \in DOMAIN Ev.items : Ev.items[k].p > 0}}
         off == {<<Ev.items[k].ty, Ev.items[k].a>> : k \in {k \in DOMAIN Ev.items : Ev.items[k].p = 0}}
         okk == Ev.r = "ok" /\ ~Get(Ev, "late", FALSE)
     IN /\ F.good /\ NoMust(s) /\ NoOwe(s)
        /\ Chk("P13", ~Ev.mal)
        /\ Chk("P13", Ev.size <= 253)
        /\ Chk("P14", s.port = "open")
        /\ Chk("P24", d > 0 /\ asked # {} => s.dv[d].susp < 0)
        /\ Chk("P12", s.evq = <<>>)
        \* only events of configured registers are switched on
        /\ Chk("P13", d > 0 => \A z \in asked : \E i \in Regs(s) : R(s, i).d = d /\ R(s, i).sp > 0 /\ R(s, i).ety = z[1] /\ R(s, i).a = z[2])
        /\ Chk("P13", asked # {} => d > 0 /\ s.cfg.ep)
        \* with the priority of the register; registers with events are not switched off
        /\ Chk("P13", d > 0 /\ asked # {} => \A k \in DOMAIN Ev.items : LET z == Ev.items[k] IN
              LET rs == {i \in Regs(s) : R(s, i).d = d /\ R(s, i).sp > 0 /\ R(s, i).ety = z.ty /\ R(s, i).a = z.a} IN
              IF z.p = 0 THEN \A i \in rs : R(s, i).fwm \/ R(s, i).unsv # <<-1>>
              ELSE \E i \in rs : z.p = IF R(s, i).hi THEN 2 ELSE 1)
        /\ S' = [s EXCEPT !.last = NoLast,
                          !.unexp = @ \ {<<Ev.s, z[1], z[2]>> : z \in off},
                          !.dv = [dd \in Devs(s) |->
                             IF dd # d THEN s.dv[dd]
                             ELSE [s.dv[d] EXCEPT !.evs = IF okk THEN (@ \cup en) \ dis ELSE @,
                                                  !.evset = IF okk /\ en # {} THEN TRUE ELSE IF asked # {} THEN FALSE ELSE @,
                                                  \* (the answer was bad, but not necessarily from its first bit on)
                                                  !.evmay = IF asked # {} THEN Ev.r = "bad" ELSE @,
                                                  !.askset = IF asked = {} THEN @ ELSE IF s.dv[d].askcy = Ev.cy THEN @ \cup asked ELSE asked,
                                                  !.askok = IF asked = {} THEN @ ELSE okk /\ (s.dv[d].askcy = Ev.cy => @),
                                                  !.askcy = IF asked = {} THEN @ ELSE Ev.cy,
                                                  !.asked = TRUE, !.cya = Ev.cy, !.att = Ev.t2,
                                                  !.must = IF asked # {} /\ Ev.r = "bad" /\ ~Get(Ev, "late", FALSE) /\ s.dv[d].st # "D" THEN "X" ELSE @,
                                                  !.failcy = IF asked # {} /\ Ev.r = "bad" THEN Ev.cy ELSE @]],
                          !.rg = [i \in Regs(s) |->
                             IF okk /\ R(s, i).d = d /\ R(s, i).sp = 1 /\ <<R(s, i).ety, R(s, i).a>> \in en
                             THEN [s.rg[i] EXCEPT !.ex = TRUE] ELSE s.rg[i]],
                          !.dcyA = IF d > 0 /\ asked # {} /\ s.dv[d].st = "D" THEN @ \cup {Ev.cy} ELSE @,
                          !.evt = IF okk /\ en # {} THEN Ev.t ELSE @]

EvVal(data) == LET b(k) == IF k \in DOMAIN data THEN data[k] ELSE 0
                  IN [k \in 1 .. 4 |-> b(2 * k - 1) + 256 * b(2 * k)]
Evr ==
  /\ Ev.o = "evr"
  /\ LET F == Finalize(S, Ev)
         s == [F.s EXCEPT !.t = Ev.t, !.evt = Ev.t, !.evcy = Ev.cy]
         okk == ~Get(Ev, "late", FALSE)
         regsOf(ev) == {i \in Regs(s) : R(s, i).sp > 0 /\ D(s, R(s, i).d).sid = Ev.s /\ R(s, i).ety = ev.ty /\ R(s, i).a = ev.a}
     IN /\ F.good /\ NoMust(s) /\ NoOwe(s) /\ Timely(s, Ev.t)
        \* what was received is confirmed, nothing else is
        /\ Chk("P12", <<Ev.as, Ev.af>> = s.ack)
        \* there is room for at least one event
        /\ Chk("P12", Ev.max >= 6)
        \* (reading goes on in the turn in which the last device with events says that it restarted)
        /\ Chk("P12", F.s.evcy = Ev.cy \/ \E d \in Devs(s) : s.dv[d].evset \/ s.dv[d].evmay)
        /\ Chk("P14", s.port = "open")
        /\ Chk("P12", s.evq = <<>> /\ (s.unexp # {} => Ev.cy = s.unexpcy))
        /\ S' = IF Ev.r = "none" /\ okk THEN [EvGood(s) EXCEPT !.ack = <<0, 0>>, !.last = NoLast]
                ELSE IF Ev.r = "ev" /\ okk
                THEN LET new == {<<Ev.s, Ev.ev[k].ty, Ev.ev[k].a>> : k \in {k \in DOMAIN Ev.ev : Ev.ev[k].ty \in 1 .. 4 /\ regsOf(Ev.ev[k]) = {}}}
                         \* the publications these events must bring, in order
                         q == SelectSeq(Ev.ev, LAMBDA z : z.ty \in 1 .. 4 /\ regsOf(z) # {})
                     IN [EvGood(s) EXCEPT !.ack = <<Ev.s, Ev.fl>>, !.last = NoLast,
                          !.evq = [k \in DOMAIN q |-> [regs |-> regsOf(q[k]), v |-> EvVal(q[k].d)]],
                          !.unexp = @ \cup new,
                          !.unexpcy = IF new # {} THEN Ev.cy ELSE @,
                          !.dv = [d \in Devs(s) |->
                             IF D(s, d).sid = Ev.s /\ (\E k \in DOMAIN Ev.ev : Ev.ev[k].ty = 15) /\ D(s, d).ev # <<>>
                             THEN [s.dv[d] EXCEPT !.must = IF s.dv[d].st = "D" THEN @ ELSE "X", !.evset = FALSE] ELSE s.dv[d]]]
                ELSE [EvLost(s) EXCEPT !.last = NoLast]

Junk == /\ Ev.o = "junk" /\ Chk("P04", FALSE) /\ S' = S
Spin == /\ Ev.o = "spin" /\ Chk("P03", FALSE) /\ S' = S
End == /\ Ev.o = "end"
       /\ LET F == Finalize(S, Ev)
          IN F.good /\ (Ev.full => NoMust(F.s) /\ NoOwe(F.s) /\ Timely(F.s, Ev.t))
       /\ S' = S

Init == l = 1 /\ S = [x |-> 0]
Next == /\ l <= Len(Trace)
        /\ (Start \/ Req \/ Conn \/ Pub \/ Set \/ Act \/ Open \/ Close \/ Evn \/ Evr \/ Junk \/ Spin \/ End)
        /\ l' = l + 1
=============================================================================
