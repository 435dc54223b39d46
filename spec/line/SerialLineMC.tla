---------------------------- MODULE SerialLineMC ----------------------------
(* A serial line with several devices: connection states, preparation (setup items), pauses between attempts at  *)
(* lost devices, suspending, closing and reopening of the port. The rules are those of LineRules, which the      *)
(* traces of the real client are held to (ClientTrace). Times are relative to the present: lastok of a device is *)
(* minus the time since its last success.                                                                        *)
EXTENDS LineRules, TLC
CONSTANTS Devs, Tmo, Cyc, NSetup, Step, MaxPause, PFail, PCyc, Reopen, Pause, CanSuspend, CanFailOpen

VARIABLES dv, phase, port, alive, openable, polled, bad
vars == <<dv, phase, port, alive, openable, polled, bad>>

Age == Max(Tmo, PFail) + 2
Idle == [at |-> "idle", d |-> 0]

Init == /\ dv = [d \in Devs |-> [c |-> [st |-> "U", rem |-> 0, lastok |-> -Age], done |-> 0, k |-> 0, wait |-> 0, susp |-> FALSE]]
        /\ phase = Idle
        /\ port = [open |-> TRUE, good |-> 0, rem |-> PCyc, wait |-> 0]
        /\ alive = [d \in Devs |-> TRUE] /\ openable = TRUE
        /\ polled = 0 /\ bad = {}

\* time goes by: everything ages
Aged(D) == [d \in Devs |-> [D[d] EXCEPT !.c.lastok = Max(@ - 1, -Age), !.wait = Max(@ - 1, 0)]]
AgedPort(p) == [p EXCEPT !.good = Min(@ + 1, Age), !.wait = Max(@ - 1, 0)]

Due(d) == dv[d].wait = 0 /\ ~dv[d].susp

\* the end of a turn of device d: the pause before the next one, and the state of the port
Finish(D, d) ==
  LET x == D[d]
      k == IF x.c.st = "D" THEN Min(x.k + 1, MaxPause \div Step + 2) ELSE 0
      D1 == [D EXCEPT ![d] = [x EXCEPT !.k = k, !.wait = IF x.c.st = "D" THEN Max(Pause, Backoff(k, Step, MaxPause)) ELSE Pause,
                                       !.done = IF x.c.st = "D" THEN 0 ELSE @]]
      p0 == IF x.c.st # "D" THEN [port EXCEPT !.good = 0, !.rem = PCyc] ELSE port
      p1 == [p0 EXCEPT !.rem = Max(@ - 1, 0)]
      close == PFail >= 0 /\ p1.good > PFail /\ p1.rem = 0
  IN /\ dv' = Aged(D1)
     /\ port' = AgedPort(IF close THEN [p1 EXCEPT !.open = FALSE, !.wait = 0] ELSE p1)
     /\ phase' = Idle

Turn(d) == /\ port.open /\ phase = Idle /\ Due(d)
           /\ polled' = d
           /\ bad' = IF dv[d].susp THEN bad \cup {"suspended"} ELSE bad
           /\ phase' = [at |-> IF dv[d].c.st = "C" \/ NSetup = 0 THEN "poll" ELSE "setup", d |-> d]
           /\ dv' = IF dv[d].c.st = "C" THEN dv ELSE [dv EXCEPT ![d].done = 0]
           /\ UNCHANGED <<port, alive, openable>>
\* an exchange succeeds only with a device that is there; it may fail at any time
Setup(d) == /\ phase = [at |-> "setup", d |-> d]
            /\ \E ok \in {TRUE, FALSE} :
                 /\ ok => alive[d]
                 /\ IF ok
                    THEN LET n == dv[d].done + 1 IN
                         /\ dv' = [dv EXCEPT ![d].done = n, ![d].c = IF n = NSetup THEN ConnOk(@, 0, Cyc) ELSE @]
                         /\ phase' = IF n = NSetup THEN [phase EXCEPT !.at = "poll"] ELSE phase
                         /\ UNCHANGED port
                    ELSE Finish([dv EXCEPT ![d].c = ConnFail(@, 0, Tmo)], d)
            /\ UNCHANGED <<alive, openable, polled, bad>>
Poll(d) == /\ phase = [at |-> "poll", d |-> d]
           /\ bad' = bad \cup (IF dv[d].done < NSetup THEN {"unprepared"} ELSE {})
           /\ \E ok \in {TRUE, FALSE} :
                /\ ok => alive[d]
                /\ Finish([dv EXCEPT ![d].c = IF ok THEN ConnOk(@, 0, Cyc) ELSE ConnFail(@, 0, Tmo)], d)
           /\ UNCHANGED <<alive, openable, polled>>
Wait == /\ phase = Idle
        /\ ~port.open \/ \A d \in Devs : ~Due(d)
        /\ dv' = Aged(dv) /\ port' = AgedPort(port) /\ polled' = 0
        /\ UNCHANGED <<phase, alive, openable, bad>>
Open == /\ ~port.open /\ phase = Idle /\ port.wait = 0
        /\ port' = IF openable THEN [port EXCEPT !.open = TRUE, !.good = 0, !.rem = PCyc] ELSE [port EXCEPT !.wait = Reopen]
        /\ UNCHANGED <<dv, phase, alive, openable, polled, bad>>

\* what is around
OffOn == /\ \E d \in Devs : alive' = [alive EXCEPT ![d] = ~@]
         /\ UNCHANGED <<dv, phase, port, openable, polled, bad>>
OpenFails == CanFailOpen /\ openable' = ~openable /\ UNCHANGED <<dv, phase, port, alive, polled, bad>>
Suspend == /\ CanSuspend /\ phase = Idle
           /\ \E d \in Devs : /\ ~dv[d].susp
                              /\ dv' = [dv EXCEPT ![d].susp = TRUE, ![d].c.st = "D", ![d].done = 0]
           /\ UNCHANGED <<phase, port, alive, openable, polled, bad>>
Resume == /\ phase = Idle
          /\ \E d \in Devs : dv[d].susp /\ dv' = [dv EXCEPT ![d].susp = FALSE, ![d].wait = 0, ![d].k = 0]
          /\ UNCHANGED <<phase, port, alive, openable, polled, bad>>

Sys == (\E d \in Devs : Turn(d) \/ Setup(d) \/ Poll(d)) \/ Wait \/ Open
Next == Sys \/ OffOn \/ OpenFails \/ Suspend \/ Resume
\* among those due, the line takes turns
Fair == /\ WF_vars(Wait) /\ WF_vars(Open)
        /\ \A d \in Devs : SF_vars(Turn(d)) /\ WF_vars(Setup(d)) /\ WF_vars(Poll(d))
Spec == Init /\ [][Next]_vars /\ Fair

NothingForbidden == bad = {}
\* a device is lost only after its last success is long ago and its failures are used up
LostRightly == [][\A d \in Devs : dv[d].c.st # "D" /\ dv'[d].c.st = "D" =>
                     \/ dv'[d].susp
                     \/ -dv[d].c.lastok > Tmo /\ dv[d].c.rem <= 1 /\ phase.d = d]_vars
\* a device that fails is not kept as connected for ever
Spent(d) == dv[d].c.st = "C" => dv[d].c.rem > 0 \/ -dv[d].c.lastok <= Age
Pauses == \A d \in Devs : dv[d].wait <= Max(MaxPause, Pause)
\* a port with a device in use is not closed
ClosedRightly == [][port.open /\ ~port'.open => port.good >= PFail /\ dv'[phase.d].c.st = "D"]_vars
TypeOK == \A d \in Devs : dv[d].done \in 0 .. NSetup /\ dv[d].c.rem \in 0 .. Cyc /\ dv[d].c.st \in {"U", "C", "D"}
\* whatever other devices do, a device gets its turn again and again, as long as the port can be opened
Turns == \A d \in Devs : ((<>[]openable) /\ (<>[]~dv[d].susp)) => []<>(phase.d = d)
\* a port that can be opened is opened
Reopened == (<>[]openable) => []<>port.open
=============================================================================
