--------------------------- MODULE PollPlanTrace ---------------------------
(* Replays recorded operations of the real scheduler through PollPlan: every observed *)
(* selection, limit, deadline and balance must be the one the specification gives.    *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO

VARIABLES l, lag, low, high, total, rl
vars == <<l, lag, low, high, total, rl>>
P == INSTANCE PollPlan WITH Lag <- lag, MS <- 1000

Init == l = 1 /\ lag = 0 /\ low = {} /\ high = {} /\ total = 0 /\ rl = [lim |-> 0]

\* the limiter: windows open at a whole second
RlNew(x, t) == IF x.lim = 0 THEN x
               ELSE IF t - x.start <= 1000000 THEN [x EXCEPT !.cnt = @ + 1]
               ELSE [x EXCEPT !.cnt = 1, !.start = (t \div 1000000) * 1000000]
RECURSIVE RlNewN(_, _, _)
RlNewN(x, t, n) == IF n = 0 THEN x ELSE RlNewN(RlNew(x, t), t, n - 1)
RlOver(x, t) == x.lim # 0 /\ t - x.start <= 1000000 /\ x.cnt > x.lim

Ev == Trace[l]
Unch(S) == TRUE
Start == /\ Ev.o = "start"
         /\ lag' = Ev.lag /\ low' = {} /\ high' = {} /\ total' = 0
         /\ rl' = [lim |-> Ev.rl, cnt |-> 0, start |-> 0]
Add == /\ Ev.o = "add"
       /\ IF Ev.p = "H" THEN high' = high \cup {[e |-> Ev.e, d |-> Ev.d]} /\ low' = low
                        ELSE low' = low \cup {[e |-> Ev.e, d |-> Ev.d]} /\ high' = high
       /\ UNCHANGED <<lag, total, rl>>
Rem == /\ Ev.o = "rem"
       /\ high' = {x \in high : x.e # Ev.e} /\ low' = {x \in low : x.e # Ev.e}
       /\ UNCHANGED <<lag, total, rl>>
Acc == /\ Ev.o = "acc"
       /\ LET r == P!Select(low, high, total, Ev.t, Ev.only, Ev.k)
          IN /\ r.offers = Ev.calls
             /\ low' = r.low /\ high' = r.high
       /\ UNCHANGED <<lag, total, rl>>
Upd == /\ Ev.o = "upd"
       /\ total' = IF Ev.p = "H" THEN P!SpendHigh(total, Ev.ms) ELSE P!SpendLow(total, Ev.ms)
       /\ UNCHANGED <<lag, low, high, rl>>
Rst == /\ Ev.o = "rst" /\ total' = 0 /\ UNCHANGED <<lag, low, high, rl>>
RNew == /\ Ev.o = "rnew" /\ rl' = RlNewN(rl, Ev.t, Ev.n) /\ Ev.over = RlOver(rl', Ev.t)
        /\ UNCHANGED <<lag, low, high, total>>
ROver == /\ Ev.o = "rover" /\ Ev.over = RlOver(rl, Ev.t) /\ UNCHANGED <<lag, low, high, total, rl>>

Observed ==
  Ev.o # "start" =>
    /\ Ev.tot = total'
    /\ Ev.hd = P!Deadline(high') /\ Ev.ld = P!Deadline(low')
    /\ Ev.dl = P!MinDeadline(P!Deadline(high'), P!Deadline(low'))
    /\ Ev.emp = (high' = {} /\ low' = {})
    /\ Has(Ev, "has") => Ev.has = (\E x \in high' \cup low' : x.e = Ev.e)

Next == /\ l <= Len(Trace)
        /\ (Start \/ Add \/ Rem \/ Acc \/ Upd \/ Rst \/ RNew \/ ROver)
        /\ Observed
        /\ l' = l + 1
=============================================================================
