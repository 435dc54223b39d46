-------------------------------- MODULE Mqtt --------------------------------
(* What is published about a channel. mui is the publishing policy: -1 a value when it differs from the one published  *)
(* before, 0 every value read, otherwise also an unchanged one after that many seconds. A channel has cv (the value     *)
(* shown, "none" at first), ce (the error shown), ct (when a value was published last), pz (zero of a press counter     *)
(* may be shown: not after the device was lost, until something else was).                                             *)
EXTENDS Integers, Sequences, TLC
SECOND == 1000000
Join3(a, b) == IF a = "" THEN b ELSE a \o ";" \o b
RECURSIVE JoinAll(_, _)
JoinAll(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o (IF i < Len(s) THEN ";" ELSE "") \o JoinAll(s, i + 1)
\* the text of a channel from the texts of its registers
TextOf(ch, texts) == IF Len(texts) # 1 THEN JoinAll(texts, 1)
                     ELSE IF ch.on # "" /\ texts[1] = ch.on THEN "1"
                     ELSE IF ch.off # "" /\ texts[1] = ch.off THEN "0" ELSE texts[1]
\* the text a user's item stands for
Meant(ch, item) == IF ch.on # "" /\ item = "1" THEN ch.on ELSE IF ch.off # "" /\ item = "0" THEN ch.off ELSE item
Hushed(c, counter, zero) == counter /\ zero /\ ~c.pz
Changed(c, text) == c.cv # text
MayPublish(mui, c, text, err, t, button) ==
    \/ Changed(c, text) \/ mui = 0 \/ button
    \/ mui > 0 /\ (c.ce # err \/ t - c.ct >= mui * SECOND)
MustPublish(mui, c, text, err, t, button) == MayPublish(mui, c, text, err, t, button)
Published(c, text, err, t) == [c EXCEPT !.cv = text, !.ce = err, !.ct = t, !.pz = TRUE]
Errored(c, err) == [c EXCEPT !.ce = err]
Silenced(c, text) == [c EXCEPT !.cv = text]
Alive(c) == [c EXCEPT !.pz = TRUE]
Lost(c) == [c EXCEPT !.pz = FALSE]
New == [cv |-> "none", ce |-> "", ct |-> 0, pz |-> TRUE]
=============================================================================
