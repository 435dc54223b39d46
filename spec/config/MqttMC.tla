------------------------------- MODULE MqttMC -------------------------------
(* One channel of one device from line to topic: registers with values 0..2 read one at a time, the user's writes, the  *)
(* device going and coming back, the clock. The rules of Mqtt say when something is published; the invariants say what   *)
(* a reader of the topics may rely on.                                                                                  *)
EXTENDS Mqtt, FiniteSets
CONSTANTS MUI, KIND, NREGS, MAXT, MAXV
VARIABLES mem,      \* what the device has
          val,      \* what was read last, -1 before
          rf, wf,   \* its reading, writing failed last
          want,     \* what the user wants written, -1: nothing
          alive,    \* the device answers
          lostst,   \* it is known to be lost
          c,        \* the channel (see Mqtt)
          now,
          topic,    \* what a reader of the topics has seen: value, error, device error
          last,     \* the publication of the value before the one seen, and what has happened since the seen one
          zeroOk    \* (kept independently) a zero of a counter may be shown
Never == -1
vars == <<mem, val, rf, wf, want, alive, lostst, c, now, topic, last, zeroOk>>
R == 1 .. NREGS
Counter == KIND = "counter"
Button == KIND = "button"
Ch == [on |-> IF KIND = "onoff" THEN "2" ELSE "", off |-> ""]
Texts(v) == [k \in R |-> ToString(v[k])]
Text(v) == TextOf(Ch, Texts(v))
Err(r, w) == (IF \E k \in R : r[k] THEN "r" ELSE "") \o (IF \E k \in R : w[k] THEN "w" ELSE "")
Known(v) == \A k \in R : v[k] >= 0
Zero(v) == \E k \in R : v[k] = 0
Init == /\ mem \in [R -> 0 .. MAXV] /\ val = [k \in R |-> -1] /\ rf = [k \in R |-> FALSE] /\ wf = rf /\ want = [k \in R |-> -1]
        /\ alive = TRUE /\ lostst = FALSE /\ c = New /\ now = 0
        /\ topic = [v |-> "none", e |-> "", d |-> "", t |-> 0] /\ last = [same |-> FALSE, gap |-> 0, e |-> TRUE] /\ zeroOk = TRUE
SeenV(text, err) == /\ topic' = [topic EXCEPT !.v = text, !.e = err, !.t = now]
                    /\ last' = [same |-> topic.v = text, gap |-> now - topic.t, e |-> topic.e = err]
SeenE(err) == topic' = [topic EXCEPT !.e = err] /\ UNCHANGED last
\* values v, errors r, w are known now: what is published
Show(v, r, w) ==
    LET err == Err(r, w)
        text == Text(v)
        hush == Known(v) /\ Hushed(c, Counter, Zero(v))
    IN IF ~Known(v) \/ hush
       THEN /\ c' = IF hush THEN Silenced(Errored(c, err), text) ELSE Errored(c, err)
            /\ IF err # topic.e THEN SeenE(err) ELSE UNCHANGED <<topic, last>>
       ELSE IF MayPublish(MUI, c, text, err, now, Button)
       THEN c' = Published(c, text, err, now) /\ SeenV(text, err)
       ELSE /\ c' = Alive(Errored(c, err))
            /\ IF err # topic.e THEN SeenE(err) ELSE UNCHANGED <<topic, last>>
OnlyError(r, w) == LET err == Err(r, w) IN c' = Errored(c, err) /\ IF err # topic.e THEN SeenE(err) ELSE UNCHANGED <<topic, last>>
Read(k) ==
    /\ lostst = ~alive
    /\ IF alive
       THEN /\ val' = [val EXCEPT ![k] = mem[k]] /\ rf' = [rf EXCEPT ![k] = FALSE]
            /\ zeroOk' = (zeroOk \/ (Known(val') /\ ~Zero(val')))
            /\ IF wf[k] THEN OnlyError(rf', wf) ELSE Show(val', rf', wf)
       ELSE rf' = [rf EXCEPT ![k] = TRUE] /\ OnlyError(rf', wf) /\ UNCHANGED <<val, zeroOk>>
    /\ UNCHANGED <<mem, wf, want, alive, lostst, now>>
\* the device is found to be lost, or back
Notice == /\ lostst = alive /\ lostst' = ~alive
          /\ topic' = [topic EXCEPT !.d = IF alive THEN "" ELSE "r"]
          /\ c' = (IF alive THEN c ELSE Lost(c)) /\ zeroOk' = (zeroOk /\ alive)
          /\ UNCHANGED <<mem, val, rf, wf, want, alive, now, last>>
User(k) == /\ want' = [want EXCEPT ![k] = MAXV] /\ want[k] # MAXV
           /\ UNCHANGED <<mem, val, rf, wf, alive, lostst, c, now, topic, last, zeroOk>>
Write(k) ==
    /\ want[k] >= 0 /\ KIND # "counter"
    /\ IF alive
       THEN /\ mem' = [mem EXCEPT ![k] = want[k]] /\ val' = [val EXCEPT ![k] = want[k]] /\ wf' = [wf EXCEPT ![k] = FALSE]
            /\ want' = [want EXCEPT ![k] = -1] /\ Show(val', rf, wf')
       ELSE wf' = [wf EXCEPT ![k] = TRUE] /\ OnlyError(rf, wf') /\ UNCHANGED <<mem, val, want>>
    /\ UNCHANGED <<rf, alive, lostst, now, zeroOk>>
\* (a counter of a device that was switched off begins anew)
Device == /\ \/ alive' = ~alive /\ mem' = IF Counter /\ alive THEN [k \in R |-> 0] ELSE mem
             \/ alive /\ alive' = alive /\ \E k \in R, v \in 0 .. MAXV : v # mem[k] /\ (Counter => v > mem[k]) /\ mem' = [mem EXCEPT ![k] = v]
          /\ UNCHANGED <<val, rf, wf, want, lostst, c, now, topic, last, zeroOk>>
Tick == /\ now < MAXT * SECOND /\ now' = now + SECOND
        /\ UNCHANGED <<mem, val, rf, wf, want, alive, lostst, c, topic, last, zeroOk>>
Next == (\E k \in R : Read(k) \/ User(k) \/ Write(k)) \/ Notice \/ Device \/ Tick
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* no zero of a counter is shown between the loss of the device and the next press: ZeroHushed
\* the topic shows the value last read; a counter's zero after the device was lost may stay unshown
Current == Known(val) /\ ~(\E k \in R : wf[k]) =>
              \/ topic.v = Text(val)
              \/ Counter /\ Zero(val) /\ ~zeroOk
\* a value is shown only when all registers are known
NothingInvented == topic.v # "none" => Known(val)
\* without unchanged values a publication differs from the one before; otherwise it comes after the interval, or with another error
NoRepeats == last.same => \/ MUI = 0 \/ Button
                          \/ MUI > 0 /\ (last.gap >= MUI * SECOND \/ ~last.e)
                          \/ Counter
\* errors shown are those there are
ErrorsShown == topic.e = Err(rf, wf)
DeviceShown == topic.d = IF lostst THEN "r" ELSE ""
ZeroHushed == [][Counter /\ NREGS = 1 /\ topic'.v = "0" /\ topic.v # "0" => zeroOk']_vars
=============================================================================
