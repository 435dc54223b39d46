----------------------------- MODULE PollPlanMC -----------------------------
(* The poll plan under a serial line: one read at a time, reads take 1..MaxCost units, *)
(* a read item comes due again after its period (high) or at once (low).               *)
(* Deadlines are kept relative to the current time, so the state space is finite.      *)
EXTENDS PollPlan, TLC
CONSTANTS HighIds, LowIds, Period, MaxCost, MaxIdle, LateCap

VARIABLES low, high, total, lastCls, lastReady, hsince, served, cap
vars == <<low, high, total, lastCls, lastReady, hsince, served, cap>>

Shift(q, t) == {[x EXCEPT !.d = Max(x.d - t, -LateCap)] : x \in q}

Init == /\ high = {[e |-> i, d |-> 0] : i \in HighIds}
        /\ low = {[e |-> i, d |-> 0] : i \in LowIds}
        /\ total = 0 /\ lastCls = "N" /\ lastReady = [h |-> FALSE, bal |-> 0]
        /\ hsince = 0 /\ served = 0 /\ cap = FALSE

(* one item read *)
Read(onlyHigh) ==
  LET r == Select(low, high, total, 0, onlyHigh, 1)
  IN /\ r.offers # <<>>
     /\ LET e == r.offers[1].e
            f == r.offers[1].force
            lim == r.offers[1].limit
        IN \E cost \in 1..MaxCost :
             \* without Force an item is read only if it fits the limit it was offered
             /\ (f \/ lim = NoLimit \/ cost <= lim)
             /\ IF r.cls = "H"
                THEN /\ high' = Shift(r.high, cost) \cup {[e |-> e, d |-> Period - cost]}
                     /\ low' = Shift(low, cost)
                     /\ total' = SpendHigh(total, cost)
                     /\ hsince' = IF Ready(low, 0) THEN hsince + cost ELSE 0
                ELSE /\ low' = Shift(r.low, cost) \cup {[e |-> e, d |-> 1 - cost]}
                     /\ high' = Shift(high, cost)
                     /\ total' = SpendLow(total, cost)
                     /\ hsince' = 0
             /\ served' = e
             /\ cap' = (cap \/ \E x \in low' \cup high' : x.d = -LateCap)
     /\ lastCls' = r.cls
     /\ lastReady' = [h |-> Ready(high, 0), bal |-> total]

(* nothing fits or nothing is due: time goes by *)
CanRead == Class(low, high, total, 0, FALSE) # "N"
Idle == /\ \E t \in 1..MaxIdle :
             /\ low' = Shift(low, t) /\ high' = Shift(high, t)
             /\ ~CanRead \/ (\A cost \in 1..1 :
                  LET o == Select(low, high, total, 0, FALSE, 1).offers[1]
                  IN ~(o.force \/ o.limit = NoLimit \/ cost <= o.limit))
        /\ cap' = (cap \/ \E x \in low' \cup high' : x.d = -LateCap)
        /\ lastCls' = "N" /\ lastReady' = [h |-> FALSE, bal |-> total]
        /\ served' = 0
        /\ UNCHANGED <<total, hsince>>
Next == Read(FALSE) \/ Idle
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == total \in -(2 * Lag) .. (2 * Lag)
\* read-period items come first unless the others lag by Lag
HighFirst == (lastCls = "L" /\ lastReady.h) => lastReady.bal >= Lag
\* ordinary items wait a bounded time behind read-period items
LowNotStarved == hsince <= 3 * Lag + MaxCost
NoCap == ~cap
\* every item is read again and again
EveryItem == \A i \in HighIds \cup LowIds : []<>(served = i)
=============================================================================
