---------------------------- MODULE WriteQueueMC ----------------------------
(* Values set by the user (MQTT thread) and written to the device by the port thread, interleaved at every       *)
(* access to the shared state. One register; the device accepts, refuses for good, or does not answer; the       *)
(* connection comes and goes.                                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sets,      \* how many values the user sets (the k-th value is k)
          Limit      \* how long writing may fail before it is given up, in attempts

VARIABLES val, dirty, wf, first, tasks,          \* shared, under the mutex / the queue's mutex
          pc, tmp, res,                          \* port thread
          nset, umid,                            \* user thread: values set so far, between setting and queueing
          clk, conn, dev, pub, back, lie, gaveup  \* environment and what is observed
vars == <<val, dirty, wf, first, tasks, pc, tmp, res, nset, umid, clk, conn, dev, pub, back, lie, gaveup>>

Init == /\ val = 0 /\ dirty = FALSE /\ wf = FALSE /\ first = 0 /\ tasks = 0
        /\ pc = "idle" /\ tmp = 0 /\ res = "" /\ nset = 0 /\ umid = FALSE
        /\ clk = 0 /\ conn = TRUE /\ dev = 0 /\ pub = <<"", 0>> /\ back = FALSE /\ lie = FALSE /\ gaveup = 0

\* the user's thread
SetValue == /\ ~umid /\ nset < Sets
            /\ nset' = nset + 1 /\ val' = nset + 1 /\ dirty' = TRUE /\ umid' = TRUE
            /\ UNCHANGED <<wf, first, tasks, pc, tmp, res, clk, conn, dev, pub, back, lie, gaveup>>
AddTask == /\ umid /\ umid' = FALSE /\ tasks' = tasks + 1
           /\ UNCHANGED <<val, dirty, wf, first, pc, tmp, res, nset, clk, conn, dev, pub, back, lie, gaveup>>

\* the port's thread
Take == /\ pc = "idle" /\ tasks > 0
        /\ tasks' = tasks - 1
        /\ pc' = IF dirty THEN "check" ELSE "idle"
        /\ UNCHANGED <<val, dirty, wf, first, tmp, res, nset, umid, clk, conn, dev, pub, back, lie, gaveup>>
\* one more attempt or the end
Expire(t) == /\ IF ~wf THEN first' = clk ELSE first' = first
             /\ LET f == IF wf THEN first ELSE clk IN
                IF clk - f > Limit THEN wf' = FALSE /\ dirty' = t /\ gaveup' = IF t THEN gaveup ELSE val
                                   ELSE wf' = TRUE /\ dirty' = dirty /\ gaveup' = gaveup
Check == /\ pc = "check"
         /\ IF conn THEN pc' = "copy" /\ UNCHANGED <<dirty, wf, first, gaveup, pub, clk>>
            ELSE /\ pub' = <<"e", 0>> /\ clk' = clk + 1
                 /\ IF dirty THEN Expire(FALSE) ELSE UNCHANGED <<dirty, wf, first, gaveup>>
                 /\ pc' = "again"
         /\ UNCHANGED <<val, tasks, tmp, res, nset, umid, conn, dev, back, lie>>
Copy == /\ pc = "copy" /\ tmp' = val /\ pc' = "send"
        /\ UNCHANGED <<val, dirty, wf, first, tasks, res, nset, umid, clk, conn, dev, pub, back, lie, gaveup>>
Send == /\ pc = "send" /\ clk' = clk + 1
        /\ \E r \in {"ok", "perm", "fail", "lost"} :
             /\ res' = IF r = "lost" THEN "fail" ELSE r
             /\ dev' = IF r \in {"ok", "lost"} THEN tmp ELSE dev
             \* an older value after a newer one
             /\ back' = (back \/ (r \in {"ok", "lost"} /\ tmp < dev))
        /\ pc' = "done"
        /\ UNCHANGED <<val, dirty, wf, first, tasks, tmp, nset, umid, conn, pub, lie, gaveup>>
Done == /\ pc = "done"
        /\ CASE res \in {"ok", "perm"} -> /\ dirty' = (tmp # val) /\ wf' = FALSE
                                          /\ gaveup' = IF res = "perm" THEN tmp ELSE gaveup
                                          /\ UNCHANGED first
             [] OTHER -> Expire(tmp # val)
        /\ pub' = IF res = "ok" THEN <<"r", tmp>> ELSE <<"e", tmp>>
        /\ lie' = (lie \/ (res = "ok" /\ tmp # dev))
        /\ pc' = "again"
        /\ UNCHANGED <<val, tasks, tmp, res, nset, umid, clk, conn, dev, back>>
Again == /\ pc = "again" /\ pc' = "idle"
         /\ tasks' = IF dirty THEN tasks + 1 ELSE tasks
         /\ UNCHANGED <<val, dirty, wf, first, tmp, res, nset, umid, clk, conn, dev, pub, back, lie, gaveup>>
Flip == /\ pc = "idle" /\ conn' = ~conn
        /\ UNCHANGED <<val, dirty, wf, first, tasks, pc, tmp, res, nset, umid, clk, dev, pub, back, lie, gaveup>>

Port == Take \/ Check \/ Copy \/ Send \/ Done \/ Again
Next == SetValue \/ AddTask \/ Port \/ Flip
Spec == Init /\ [][Next]_vars /\ WF_vars(Port) /\ WF_vars(AddTask)
Bound == clk <= 3 * Limit + 4

Quiet == pc = "idle" /\ tasks = 0 /\ ~umid
\* nothing set by the user is forgotten: the newest value is in the device, or it was given up, and that was told
NewestDelivered == Quiet /\ nset > 0 =>
  \/ dev = nset
  \/ gaveup = nset /\ pub[1] = "e"
\* a value that waits has a task that will write it
NeverStuck == dirty /\ ~umid => tasks > 0 \/ pc # "idle"
\* an older value never replaces a newer one
InOrder == ~back
\* only what was written is announced as written
TrueWord == ~lie
\* every value that waits is decided
Decided == dirty ~> (~dirty \/ clk > 3 * Limit + 3)
=============================================================================
