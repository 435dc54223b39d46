------------------------------ MODULE EventsMC ------------------------------
(* Fast Modbus events: devices queue changes of values, the master collects the packets in the order of slave    *)
(* ids and confirms each with its next request. Requests, packets and confirmations may be lost; a device may    *)
(* restart. The rules for the master are those the traces of the real client are held to (ClientTrace).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slaves, Changes, PerPacket, CanReboot

VARIABLES slv,        \* what each slave knows: [q, sent, flag, on, n]
          mst,        \* master: [as, af, last, watched, ok]
          got,        \* values published, per slave
          lost,       \* values made while nobody watched: not owed
          reb         \* restarts left
vars == <<slv, mst, got, lost, reb>>

\* The mark of a packet alternates. ASSUMPTION about the devices: after a restart no confirmation sent before fits
\* (otherwise a confirmation the master repeats could confirm the first packet after the restart when that packet is
\* lost: without the assumption this model finds it; nothing in the master can prevent it).
Toggle(f) == IF f % 2 = 0 THEN f + 1 ELSE f - 1

Init == /\ slv = [s \in Slaves |-> [q |-> <<>>, sent |-> <<>>, flag |-> 0, on |-> FALSE, n |-> 0]]
        /\ mst = [as |-> 0, af |-> 0, last |-> 0, watched |-> {}, ok |-> TRUE]
        /\ got = [s \in Slaves |-> <<>>]
        /\ lost = [s \in Slaves |-> 0]
        /\ reb = IF CanReboot THEN 1 ELSE 0

\* a value changes in a slave
Change(s) == /\ slv[s].n < Changes
             /\ slv' = [slv EXCEPT ![s].n = @ + 1, ![s].q = IF slv[s].on THEN Append(@, slv[s].n + 1) ELSE @]
             /\ lost' = IF slv[s].on THEN lost ELSE [lost EXCEPT ![s] = slv[s].n + 1]
             /\ UNCHANGED <<mst, got, reb>>
\* the master reads all registers of the device and asks it for events (preparation of a connection)
Enable(s) == /\ s \notin mst.watched
             /\ slv' = [slv EXCEPT ![s].on = TRUE]
             /\ mst' = [mst EXCEPT !.watched = @ \cup {s}]
             \* (the values at this moment are read by ordinary polling)
             /\ lost' = [lost EXCEPT ![s] = slv[s].n]
             /\ got' = [got EXCEPT ![s] = <<>>]
             /\ UNCHANGED reb
\* a slave restarts: it forgets everything and says so in its first event
Reboot(s) == /\ reb > 0 /\ slv[s].on
             /\ reb' = reb - 1
             /\ slv' = [slv EXCEPT ![s].q = <<0>>, ![s].sent = <<>>, ![s].on = FALSE, ![s].flag = (@ + 2) % 4]
             /\ lost' = [lost EXCEPT ![s] = slv[s].n]
             /\ UNCHANGED <<mst, got>>

\* a request reaches the slaves: what is confirmed is forgotten; the first with something to say answers
Confirmed(S, as, af) == [s \in Slaves |-> IF s = as /\ S[s].sent # <<>> /\ S[s].flag = af
                                          THEN [S[s] EXCEPT !.sent = <<>>, !.flag = Toggle(@)] ELSE S[s]]
Fill(x) == LET k == IF Len(x.q) <= PerPacket - Len(x.sent) THEN Len(x.q) ELSE PerPacket - Len(x.sent)
           IN [x EXCEPT !.sent = @ \o SubSeq(x.q, 1, k), !.q = SubSeq(x.q, k + 1, Len(x.q))]
Speaks(S, from) == {s \in Slaves : s >= from /\ (S[s].q # <<>> \/ S[s].sent # <<>>)}
Values(ps) == SelectSeq(ps, LAMBDA z : z # 0)
Fails(m) == [m EXCEPT !.ok = FALSE]

Read == /\ mst.watched # {}
        /\ \/ mst' = Fails(mst) /\ UNCHANGED <<slv, got>>          \* the request is lost
           \/ LET S1 == Confirmed(slv, mst.as, mst.af)
                  C == Speaks(S1, mst.last)
              IN IF C = {}
                 THEN \/ /\ slv' = S1 /\ mst' = [mst EXCEPT !.as = 0, !.af = 0, !.last = 0, !.ok = TRUE] /\ UNCHANGED got
                      \/ /\ slv' = S1 /\ mst' = Fails(mst) /\ UNCHANGED got   \* "no events" is lost
                 ELSE LET s == CHOOSE x \in C : \A y \in C : x <= y
                          S2 == [S1 EXCEPT ![s] = Fill(@)]
                          p == S2[s].sent
                          restart == \E k \in DOMAIN p : p[k] = 0
                      IN \/ /\ slv' = S2 /\ mst' = Fails(mst) /\ UNCHANGED got    \* the packet is lost
                         \/ /\ slv' = S2
                            /\ mst' = [mst EXCEPT !.as = s, !.af = S2[s].flag, !.last = s, !.ok = TRUE,
                                                  !.watched = IF restart THEN @ \ {s} ELSE @]
                            /\ got' = [got EXCEPT ![s] = @ \o Values(p)]
        /\ UNCHANGED <<lost, reb>>

Next == Read \/ \E s \in Slaves : Change(s) \/ Enable(s) \/ Reboot(s)
Good == Read /\ mst'.ok
Spec == Init /\ [][Next]_vars /\ SF_vars(Good) /\ \A s \in Slaves : WF_vars(Enable(s))

\* every change after events were switched on arrives exactly once, in order
Expected(s) == [k \in 1 .. slv[s].n - lost[s] |-> lost[s] + k]
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in DOMAIN a : a[k] = b[k]
InOrderOnce == \A s \in Slaves : slv[s].on /\ s \in mst.watched => IsPrefix(got[s], Expected(s))
\* nothing is on the way: everything has arrived
NoneLost == \A s \in Slaves : slv[s].on /\ s \in mst.watched /\ slv[s].q = <<>> /\ slv[s].sent = <<>> => got[s] = Expected(s)
\* what is confirmed has been received
Newest(s) == IF got[s] = <<>> THEN lost[s] ELSE got[s][Len(got[s])]
Arrives == \A s \in Slaves : <>[](slv[s].on /\ s \in mst.watched /\ Newest(s) = slv[s].n)
=============================================================================
