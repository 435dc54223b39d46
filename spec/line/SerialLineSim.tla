---------------------------- MODULE SerialLineSim ----------------------------
(* Behaviours of SerialLineMC, printed as what happened around the line and when: replayed into the real client. *)
EXTENDS SerialLineMC, Json
CONSTANT Depth
VARIABLES clk, log
SimInit == Init /\ clk = 0 /\ log = <<>>
E(a, d) == [a |-> a, d |-> d, t |-> clk]
Failed == phase.d # 0 /\ phase' = Idle /\ alive[phase.d] /\ (phase.at = "setup" \/ dv'[phase.d].c.lastok < -1)
SimNext ==
  /\ Sys \/ ((IF log = <<>> THEN TRUE ELSE clk - log[Len(log)].t >= 3) /\ (OffOn \/ OpenFails \/ Suspend \/ Resume))
  /\ clk' = IF phase' # phase \/ polled' # polled \/ \E d \in Devs : dv'[d].c.lastok # dv[d].c.lastok THEN clk + 1 ELSE clk
  /\ log' = IF \E d \in Devs : alive'[d] # alive[d]
            THEN LET d == CHOOSE d \in Devs : alive'[d] # alive[d] IN Append(log, E(IF alive'[d] THEN "on" ELSE "off", d))
            ELSE IF openable' # openable THEN Append(log, E(IF openable' THEN "openok" ELSE "openfail", 0))
            ELSE IF \E d \in Devs : dv'[d].susp # dv[d].susp
            THEN LET d == CHOOSE d \in Devs : dv'[d].susp # dv[d].susp IN Append(log, E(IF dv'[d].susp THEN "susp" ELSE "res", d))
            ELSE IF Failed THEN Append(log, E("fault", phase.d)) ELSE log
Emit == TLCGet("level") >= Depth => PrintT("BEHAVIOUR" \o ToJson([clk |-> clk, log |-> log]))
=============================================================================
