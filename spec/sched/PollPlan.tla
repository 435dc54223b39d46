------------------------------ MODULE PollPlan ------------------------------
(***************************************************************************)
(* The poll plan: two deadline queues (read-period items = high priority,   *)
(* the rest = low priority) and a balance of the time spent on each.        *)
(* All operators are pure; PollPlanMC explores them exhaustively with an    *)
(* environment, PollPlanTrace replays recorded runs of the real scheduler   *)
(* through them.  Times are in units; MS units make one millisecond.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Lag,   \* allowed lag of low priority items, ms
          MS     \* time units per millisecond

NoLimit == -1    \* "no limit" / "no deadline"

(* A queue is a set of [e |-> entry, d |-> deadline]; an entry is in a queue at most once. *)
Before(a, b) == a.d < b.d \/ (a.d = b.d /\ a.e > b.e)
Top(q) == CHOOSE x \in q : \A y \in q \ {x} : Before(x, y)
Ready(q, now) == q # {} /\ Top(q).d <= now
Deadline(q) == IF q = {} THEN NoLimit ELSE Top(q).d
MinDeadline(a, b) == IF a = NoLimit THEN b ELSE IF b = NoLimit THEN a ELSE IF a < b THEN a ELSE b

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
CeilMs(t) == IF t > 0 THEN (t + MS - 1) \div MS ELSE -((-t) \div MS)

(* The balance (ms): positive - high priority items were served more. *)
SpendHigh(total, ms) == Min(total + ms, 2 * Lag)
SpendLow(total, ms) == Max(total - ms, -(2 * Lag))
LowOverdue(total) == total >= Lag
LowLag(total) == Max(total - Lag, 0)

(* Time a batch of low priority items may take. *)
LowLimit(high, total, now) ==
  IF high = {} THEN NoLimit
  ELSE LET delta == CeilMs(Top(high).d - now) IN IF delta > 0 THEN delta ELSE LowLag(total)

(* One selection.  accept: how many items the caller takes before it refuses one. *)
(* Result: the offers made, in order, and the queues afterwards.                   *)
RECURSIVE Offer(_, _, _, _, _, _)
Offer(q, now, accept, firstForced, first, limit) ==
  IF ~Ready(q, now) THEN [offers |-> <<>>, q |-> q]
  ELSE LET t == Top(q)
           o == [e |-> t.e, force |-> first /\ firstForced, limit |-> limit]
       IN IF accept = 0 THEN [offers |-> <<o>>, q |-> q]
          ELSE LET r == Offer(q \ {t}, now, accept - 1, firstForced, FALSE, limit)
               IN [offers |-> <<o>> \o r.offers, q |-> r.q]

Class(low, high, total, now, onlyHigh) ==
  LET forceLow == ~onlyHigh /\ (LowOverdue(total) \/ high = {})
  IN IF Ready(high, now) /\ (~forceLow \/ ~Ready(low, now)) THEN "H"
     ELSE IF ~onlyHigh /\ Ready(low, now) THEN "L" ELSE "N"

Select(low, high, total, now, onlyHigh, accept) ==
  LET cls == Class(low, high, total, now, onlyHigh)
      forceLow == ~onlyHigh /\ (LowOverdue(total) \/ high = {})
  IN CASE cls = "H" ->
            LET r == Offer(high, now, accept, TRUE, TRUE, NoLimit)
            IN [cls |-> cls, offers |-> r.offers, low |-> low, high |-> r.q]
       [] cls = "L" ->
            LET r == Offer(low, now, accept, forceLow, TRUE, LowLimit(high, total, now))
            IN [cls |-> cls, offers |-> r.offers, low |-> r.q, high |-> high]
       [] OTHER -> [cls |-> cls, offers |-> <<>>, low |-> low, high |-> high]
=============================================================================
