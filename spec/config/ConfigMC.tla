------------------------------ MODULE ConfigMC ------------------------------
(* Config on every combination of a small template with a user's settings for it: what the user may and may not      *)
(* change, which conditional parts are there, where the registers of subdevices are, which names are told apart.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
C == INSTANCE Config
CONSTANTS Deep
VARIABLES k, tc, uc, par, sub, dv

Opt(f, S) == {C!Nil} \cup {f :> x : x \in S}
Mix(A, B) == {a @@ b : a \in A, b \in B}
P1 == <<112, 49>>
Eq1 == P1 \o <<61, 61, 49>>
Ne1 == P1 \o <<33, 61, 49>>
Codes == [p1 |-> P1]
IntVal(n) == [num |-> TRUE, int |-> TRUE, n |-> n, v |-> ToString(n)]
Ad(n) == [a |-> n, off |-> 0, w |-> 0]
Base == [name |-> "A", address |-> Ad(10), P |-> C!Nil]
\* the template's channel
TChs == Mix({Base}, Mix(Opt("readonly", {TRUE, FALSE}), Mix(Opt("scale", {"0.1"}),
            Mix(Opt("enabled", {TRUE, FALSE}), Mix(Opt("condition", {Eq1, Ne1}), Opt("id", IF Deep THEN {"a"} ELSE {}))))))
\* the user's settings: for it, or a channel of his own
UChs == {<<>>} \cup {<<x>> : x \in Mix({[name |-> "A", P |-> C!Nil]}, Mix(Opt("readonly", {TRUE, FALSE}), Mix(Opt("scale", {"7"}),
            Mix(Opt("enabled", {TRUE, FALSE}), Mix(Opt("address", {Ad(99)}), Opt("units", {"V"}))))))}
        \cup {<<[name |-> "B", P |-> C!Nil] @@ x>> : x \in {[address |-> Ad(20)], [address |-> Ad(20), enabled |-> FALSE]}}
Pars == [user : {-1, 1, 2}, default : {-1, 1, 2}, ro : BOOLEAN, cond : {<<>>, Eq1, Ne1}]
\* the group's place, the user's setup item for the register of the template's item or another
Subs == [shift : {0, 100}, stride : {0, 2}, type : {"", "s", "q"}, su : {0, 50, 51}, scond : {<<>>, Eq1}]
Param == [id |-> "p1", title |-> "P", address |-> Ad(60), raw |-> <<>>] @@ (IF par.ro THEN [readonly |-> TRUE] ELSE C!Nil)
         @@ (IF par.default >= 0 THEN [default |-> IntVal(par.default)] ELSE C!Nil)
         @@ (IF par.cond # <<>> THEN [condition |-> par.cond] ELSE C!Nil)
Item == [title |-> "T", address |-> Ad(50), value |-> "1"] @@ (IF sub.scond # <<>> THEN [condition |-> sub.scond] ELSE C!Nil)
SubDev == [params |-> <<>>, parr |-> FALSE, setup |-> <<[title |-> "S", address |-> Ad(3), value |-> "4"]>>, hassub |-> FALSE, sub |-> <<>>, tr |-> <<>>,
           channels |-> <<[name |-> "x", address |-> Ad(1), P |-> C!Nil], [name |-> "y", address |-> Ad(2), format |-> "u32", P |-> C!Nil]>>]
Group == [name |-> "G", oneOf |-> <<"s">>, shift |-> sub.shift, stride |-> sub.stride, P |-> C!Nil]
T == [t |-> [dep |-> FALSE, hw |-> FALSE,
             dev |-> [name |-> "N", id |-> "dev", parr |-> TRUE, params |-> <<Param>>, setup |-> <<Item>>,
                      channels |-> <<tc>> \o (IF sub.type = "" THEN <<>> ELSE <<Group>>), hassub |-> sub.type # "",
                      sub |-> <<<<"s", SubDev>>>>, tr |-> <<>>]]]
Dev == [device_type |-> "t", slave_id |-> [s |-> "5", n |-> 5, sub |-> 5],
        channels |-> uc \o (IF sub.type = "" THEN <<>> ELSE <<[name |-> "G", device_type |-> sub.type, P |-> C!Nil]>>),
        setup |-> IF sub.su = 0 THEN <<>> ELSE <<[title |-> "U", address |-> Ad(sub.su), value |-> "9"]>>,
        P |-> IF par.user < 0 THEN C!Nil ELSE [p1 |-> IntVal(par.user)]]
PortRec == [tcp |-> FALSE, rl |-> -1, delay |-> 0]
Res == C!LoadDevice(Dev, T, PortRec, "def", Codes)

\* two devices anywhere
Ids == {"1", "01", "0x1", "2", ""}
Num == [x \in Ids |-> IF x = "2" THEN 2 ELSE IF x = "" THEN -1 ELSE 1]
Dv == {<<[slave_id |-> [s |-> a, n |-> Num[a], sub |-> sa]], [slave_id |-> [s |-> b, n |-> Num[b], sub |-> sb]], p>> :
         a, b \in Ids, sa, sb \in {1, 2}, p \in {"modbus", "modbus_io", "mercury230", "neva"}}

NoSub == [shift |-> 0, stride |-> 0, type |-> "", su |-> 0, scond |-> <<>>]
NoPar == [user |-> -1, default |-> -1, ro |-> FALSE, cond |-> <<>>]
Plain == {p \in Pars : p.cond = <<>> /\ ~p.ro /\ (Deep \/ (p.default # 2 /\ p.user # 2))}
\* (in two steps: the second is what TLC divides among its workers)
Init == \/ k = "user" /\ tc \in TChs /\ uc = <<>> /\ par = NoPar /\ sub = NoSub /\ dv = <<>>
        \/ k = "group" /\ tc \in {Base, Base @@ [condition |-> Eq1]} /\ uc = <<>> /\ par \in Pars /\ sub = NoSub /\ dv = <<>>
        \/ k = "ids" /\ dv \in Dv /\ tc = Base /\ uc = <<>> /\ par = NoPar /\ sub = NoSub
Next == \/ k = "user" /\ k' = "done" /\ uc' \in UChs /\ par' \in Plain /\ UNCHANGED <<tc, sub, dv>>
        \/ k = "group" /\ k' = "done" /\ sub' \in Subs /\ UNCHANGED <<tc, uc, par, dv>>
Spec == Init /\ [][Next]_<<k, tc, uc, par, sub, dv>>

Value == IF par.user >= 0 THEN par.user ELSE par.default
True(c) == CASE c = <<>> -> TRUE [] c = Eq1 -> Value = 1 [] c = Ne1 -> Value # 1
U == IF uc = <<>> THEN C!Nil ELSE uc[1]
\* channels of the topic name id
Ch(id) == SelectSeq(Res.d.ch, LAMBDA c : c.id = id)
Wrong == sub.type = "q"
Loads == k = "done" => Res.ok = ~Wrong
R == k = "done" /\ ~Wrong
IdA == C!Get(tc, "id", "A")
\* the template's channel is there when its condition holds and neither the user nor, without his word, the template disables it
Present == R => Len(Ch(IdA)) = IF /\ True(C!Get(tc, "condition", <<>>))
                                  /\ (IF C!Get(U, "name", "") = "A" /\ C!Has(U, "enabled") THEN U.enabled ELSE C!Get(tc, "enabled", TRUE))
                               THEN 1 ELSE 0
\* what the template says about the register stays
Kept == R => \A i \in DOMAIN Ch(IdA) : /\ Ch(IdA)[i].regs[1].a = 10 /\ Ch(IdA)[i].regs[1].sc = C!Get(tc, "scale", "1")
                                       /\ C!Get(tc, "readonly", FALSE) => Ch(IdA)[i].ro
\* what the user may change is changed
Changed == R => \A i \in DOMAIN Ch(IdA) : C!Get(U, "name", "") = "A" =>
                   /\ Ch(IdA)[i].units = C!Get(U, "units", "")
                   /\ Ch(IdA)[i].ro = (C!Get(tc, "readonly", FALSE) \/ C!Get(U, "readonly", FALSE))
Own == R => Len(Ch("B")) = IF C!Get(U, "name", "") = "B" /\ C!Get(U, "enabled", TRUE) THEN 1 ELSE 0
\* merging once more changes nothing
Again == R => LET chs == T.t.dev.channels
                  one == C!MergeChannels(chs, Dev.channels, C!Subs(T.t.dev))
                  noG == SelectSeq(one.chs, LAMBDA c : c.name = "A")
              IN uc # <<>> /\ U.name = "A" => C!MergeChannels(noG, uc, C!Nil).chs = noG
\* setup: the parameter is written when the user gave a value and its condition holds; the user's command wins over the template's
SetupAt(a) == SelectSeq(Res.d.setup, LAMBDA s : s.wa = a)
Writes == R => /\ Len(SetupAt(60)) = IF par.user >= 0 /\ ~par.ro /\ True(par.cond) THEN 1 ELSE 0
               /\ \A i \in DOMAIN SetupAt(60) : SetupAt(60)[i].v = ToString(par.user)
               /\ Len(SetupAt(50)) = IF sub.su = 50 \/ True(sub.scond) THEN 1 ELSE 0
               /\ \A i \in DOMAIN SetupAt(50) : SetupAt(50)[i].v = IF sub.su = 50 THEN "9" ELSE "1"
               /\ Len(SetupAt(51)) = IF sub.su = 51 THEN 1 ELSE 0
               /\ \A i, j \in DOMAIN Res.d.setup : i < j => Res.d.setup[i].wa < Res.d.setup[j].wa
\* registers of a group: moved by its shift, and by its stride for every byte pair of the value
Moved == R /\ sub.type = "s" => /\ Ch("G x")[1].regs[1].a = 1 + sub.shift + sub.stride
                                /\ Ch("G y")[1].regs[1].a = 2 + sub.shift + 2 * sub.stride
                                /\ Len(SetupAt(3 + sub.shift + sub.stride)) = 1
Numbered == R => \A i \in DOMAIN Res.d.ch : Res.d.ch[i].order = i
Named == R => Res.d.id = "dev_5" /\ Res.d.name = "N 5"
Same == dv # <<>> => LET s(x, y) == C!SameSid(dv[3], x, y) IN
                       /\ s(dv[1], dv[2]) = s(dv[2], dv[1])
                       /\ s(dv[1], dv[1])
                       /\ dv[3] \in C!Broadcast /\ dv[1].slave_id.s = "" => s(dv[1], dv[2])
=============================================================================
