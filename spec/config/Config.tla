------------------------------- MODULE Config -------------------------------
(* From device templates and the user's configuration to the devices, channels and setup items that are used.        *)
(* A template is [dep, hw, dev]: dev has the properties, channels, setup, parameters and subdevices of the JSON file  *)
(* under their names there; absent properties are absent fields. Numbers with a fraction are texts, conditions are    *)
(* sequences of character codes. Whatever must be refused is the outcome "bad".                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
E == INSTANCE Expr

Has(r, f) == f \in DOMAIN r
Get(r, f, default) == IF f \in DOMAIN r THEN r[f] ELSE default
Nil == [x \in {} |-> 0]
Larger(a, b) == IF a > b THEN a ELSE b
Fold(Op(_, _), acc, s) == FoldLeft(Op, acc, s)
AsFun(pairs) == TLCEval([k \in {pairs[i][1] : i \in DOMAIN pairs} |-> (pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = k])[2]])
Join(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o " " \o b
After(prefix, s) == IF s = "" THEN "" ELSE prefix \o s

-----------------------------------------------------------------------------
(* Conditions: true when empty; a name stands for the user's value, or the default, of a parameter *)
Cond(c) == Get(c, "condition", <<>>)
Parses(c) == Has(c, "condition") => E!Parse(Cond(c)).ok
Holds(c, ps) == Cond(c) = <<>> \/ E!Holds(E!Parse(Cond(c)).t, ps)
\* the codes of a parameter's name come with the template: names are p1, p2...; see NameCodes of the scenario
IntPairs(P, codes) == LET S == {k \in DOMAIN P : P[k].int /\ k \in DOMAIN codes}
                          o == SetToSeq(S)
                      IN [i \in DOMAIN o |-> <<codes[o[i]], P[o[i]].n>>]
\* the first declaration of a parameter that has a default gives it
WithDefaults(P, params) ==
    Fold(LAMBDA acc, p : IF p.id \notin DOMAIN acc /\ Has(p, "default") THEN (p.id :> p.default) @@ acc ELSE acc, P, params)

-----------------------------------------------------------------------------
(* Registers *)
TY == [holding |-> [ctl |-> "value", fmt |-> "u16", ro |-> FALSE, idx |-> 0], input |-> [ctl |-> "value", fmt |-> "u16", ro |-> TRUE, idx |-> 1],
       coil |-> [ctl |-> "switch", fmt |-> "u8", ro |-> FALSE, idx |-> 2], discrete |-> [ctl |-> "switch", fmt |-> "u8", ro |-> TRUE, idx |-> 3],
       holding_single |-> [ctl |-> "value", fmt |-> "u16", ro |-> FALSE, idx |-> 4],
       holding_multi |-> [ctl |-> "value", fmt |-> "u16", ro |-> FALSE, idx |-> 5],
       press_counter |-> [ctl |-> "value", fmt |-> "u16", ro |-> TRUE, idx |-> 1]]
FormatNames == <<"u8", "s8", "u16", "s16", "s24", "u24", "u32", "s32", "s64", "u64", "bcd8", "bcd16", "bcd24", "bcd32", "float", "double",
                 "char8", "string", "string8">>
FormatNo == [f \in {FormatNames[i] : i \in DOMAIN FormatNames} |-> (CHOOSE i \in DOMAIN FormatNames : FormatNames[i] = f) - 1]
Bytes(f) == CASE f \in {"u8", "s8", "bcd8", "char8"} -> 1 [] f \in {"u16", "s16", "bcd16"} -> 2 [] f \in {"s24", "u24", "bcd24"} -> 3
              [] f \in {"u32", "s32", "bcd32", "float"} -> 4 [] f \in {"s64", "u64", "double"} -> 8 [] OTHER -> 0
Str(f) == f \in {"string", "string8"}
HasA(c, k) == Has(c, k) /\ c[k].a >= 0
AddrOf(c, k) == IF Has(c, "string_data_size") THEN [c[k] EXCEPT !.w = 8 * c.string_data_size] ELSE c[k]
NoAddr == [a |-> -1, off |-> 0, w |-> 0]
\* bits of a word can be written only together with the others: they must be the bits that are read
WriteAddrOk(c) == HasA(c, "write_address") /\ AddrOf(c, "write_address").w # 0 =>
                      /\ HasA(c, "address")
                      /\ AddrOf(c, "address").off = AddrOf(c, "write_address").off
                      /\ AddrOf(c, "address").w = AddrOf(c, "write_address").w
Failed == [ok |-> FALSE]
LoadReg(c, base, stride) ==
    LET tn == Get(c, "reg_type", "holding") IN
    IF tn \notin DOMAIN TY THEN Failed
    ELSE LET t == TY[tn]
             fmt == IF Has(c, "format") THEN (IF c.format \in DOMAIN FormatNo THEN c.format ELSE "u16") ELSE t.fmt
             ro == t.ro \/ Get(c, "readonly", FALSE)
             ad == IF HasA(c, "address") THEN AddrOf(c, "address") ELSE NoAddr
             wr == IF HasA(c, "write_address") THEN AddrOf(c, "write_address") ELSE ad
             so == (stride * Bytes(fmt) + 1) \div 2
         IN IF \/ ~WriteAddrOk(c)
               \/ Str(fmt) /\ ad.w = 0
               \/ ~Str(fmt) /\ ad.off >= 8 * Bytes(fmt)
               \/ ad.a < 0 /\ wr.a < 0
               \/ ad.a < 0 /\ ro
            THEN Failed
            ELSE [ok |-> TRUE, ctl |-> t.ctl, idx |-> t.idx, dup |-> IF ad.a >= 0 THEN ad.a + so + base ELSE wr.a + so + base,
                  r |-> [tn |-> tn, a |-> IF ad.a < 0 THEN -1 ELSE ad.a + so + base, wa |-> wr.a + so + base, off |-> ad.off, w |-> ad.w,
                         fmt |-> FormatNo[fmt], sc |-> Get(c, "scale", "1"), of |-> Get(c, "offset", "0"), rt |-> Get(c, "round_to", "0"),
                         sp |-> IF Get(c, "semi", FALSE) THEN 2 ELSE IF Get(c, "sporadic", FALSE) THEN 1 ELSE 0,
                         acc |-> IF ad.a < 0 THEN "wo" ELSE IF ro THEN "ro" ELSE "rw",
                         wo |-> Get(c, "word_order", "") = "little_endian", bo |-> Get(c, "byte_order", "") = "little_endian",
                         per |-> Larger(Get(c, "read_period_ms", -1), -1), lim |-> Larger(Get(c, "read_rate_limit_ms", -1), -1),
                         errv |-> Get(c, "error_value", ""), unsv |-> Get(c, "unsupported_value", ""), fw |-> ""]]

-----------------------------------------------------------------------------
(* A template is usable: its conditions are expressions, writes of bits are possible, declarations of one parameter   *)
(* agree, subdevices exist and are not nested too deep                                                                *)
Subs(dev) == AsFun(dev.sub)
Kinds(c) == (IF Has(c, "device_type") THEN {c.device_type} ELSE {}) \cup
            (IF Has(c, "oneOf") THEN {c.oneOf[i] : i \in DOMAIN c.oneOf} ELSE {})
AllKinds(chs) == UNION {Kinds(chs[i]) : i \in DOMAIN chs}
RECURSIVE Nested(_, _, _)
Nested(chs, subs, n) == n <= 5 /\ \A k \in AllKinds(chs) : Nested(subs[k].channels, subs, n + 1)
RegsOf(c) == IF Has(c, "consists_of") THEN c.consists_of ELSE <<c>>
ValidTemplate(t) ==
    LET d == t.dev
        subs == Subs(d)
    IN t.dep \/
       /\ \A i \in DOMAIN d.channels : Parses(d.channels[i]) /\ \A k \in DOMAIN RegsOf(d.channels[i]) : WriteAddrOk(RegsOf(d.channels[i])[k])
       /\ \A i \in DOMAIN d.setup : Parses(d.setup[i])
       /\ \A i \in DOMAIN d.params : Parses(d.params[i])
       /\ d.parr => \A i, j \in DOMAIN d.params : d.params[i].id = d.params[j].id => d.params[i].raw = d.params[j].raw
       /\ d.hassub => /\ AllKinds(d.channels) \subseteq DOMAIN subs
                      /\ \A k \in DOMAIN subs : AllKinds(subs[k].channels) \subseteq DOMAIN subs
                      /\ Nested(d.channels, subs, 0)
\* of several declarations of a parameter one applies
OneDeclaration(t, dev, codes) ==
    LET ps == TLCEval(IntPairs(dev.P, codes))
        prm == t.dev.params
        twice == TLCEval({i \in DOMAIN prm : \E j \in DOMAIN prm : i # j /\ prm[i].id = prm[j].id})
        applies == TLCEval({i \in twice : t.dev.hassub \/ Holds(prm[i], ps)})
    IN \A i, j \in applies : i # j => prm[i].id # prm[j].id

-----------------------------------------------------------------------------
(* Merging the user's settings with the template *)
Fixed == {"id", "type", "reg_type", "address", "format", "max", "scale", "offset", "round_to", "on_value", "off_value", "error_value",
          "unsupported_value", "word_order", "byte_order", "consists_of"}
IsSub(c) == Has(c, "device_type") \/ Has(c, "oneOf")
TypeFits(c, u) ==
    IF Has(c, "oneOf") THEN Has(u, "device_type") /\ \E i \in DOMAIN c.oneOf : c.oneOf[i] = u.device_type
    ELSE IF Has(c, "device_type") THEN Has(u, "device_type") /\ u.device_type = c.device_type
    ELSE ~Has(u, "device_type")
MergeChannel(c, u) ==
    LET c1 == IF Has(c, "oneOf") THEN ("device_type" :> u.device_type) @@ c ELSE c
        no == {"name", "device_type", "P"} \cup (IF IsSub(c) THEN {"id", "oneOf"} ELSE Fixed)
        take(k) == /\ k \notin no
                   /\ ~(k = "readonly" /\ ~u[k] /\ Get(c, "readonly", FALSE))
    IN [k \in DOMAIN c1 \cup {k \in DOMAIN u : take(k)} \cup {"P"} |->
          IF k = "P" THEN Get(u, "P", Nil) @@ Get(c, "P", Nil) ELSE IF k \in DOMAIN u /\ take(k) THEN u[k] ELSE c1[k]]

\* commands of the user, parameters that have values, commands of the template; as a failure: a user's command without address
ParamItems(params, P, ps, cond) ==
    Fold(LAMBDA acc, p : IF p.id \in DOMAIN P /\ P[p.id].num /\ ~Get(p, "readonly", FALSE) /\ (~cond \/ Holds(p, ps))
                         THEN Append(acc, ("value" :> P[p.id].v) @@ p) ELSE acc, <<>>, params)
Setup(d, setup, P, ps, cond) ==
    setup \o ParamItems(d.params, P, ps, cond) \o
    Fold(LAMBDA acc, s : IF ~cond \/ Holds(s, ps) THEN Append(acc, s) ELSE acc, <<>>, d.setup)
SetupOk(setup) == \A i \in DOMAIN setup : Has(setup[i], "address")

RECURSIVE MergeChannels(_, _, _), Expand(_, _)
MergeChannels(chs, user, subs) ==
    LET names == {chs[i].name : i \in DOMAIN chs}
        step(acc, u) ==
            IF ~acc.ok THEN acc
            ELSE IF u.name \in names
            THEN IF \A i \in DOMAIN chs : chs[i].name = u.name => TypeFits(acc.chs[i], u)
                 THEN [acc EXCEPT !.chs = [i \in DOMAIN acc.chs |-> IF i \in DOMAIN chs /\ chs[i].name = u.name THEN MergeChannel(acc.chs[i], u)
                                                                     ELSE acc.chs[i]]]
                 ELSE Failed
            ELSE IF Has(u, "device_type") THEN Failed
            ELSE [acc EXCEPT !.chs = Append(@, u)]
        m == Fold(step, [ok |-> TRUE, chs |-> chs], user)
        grow(acc, c) == IF ~acc.ok THEN acc
                        ELSE IF ~Has(c, "device_type") THEN [acc EXCEPT !.chs = Append(@, c)]
                        ELSE LET x == Expand(c, subs) IN IF x.ok THEN [acc EXCEPT !.chs = Append(@, x.c)] ELSE Failed
    IN IF ~m.ok THEN Failed ELSE Fold(grow, [ok |-> TRUE, chs |-> <<>>], m.chs)
Expand(c, subs) ==
    IF c.device_type \notin DOMAIN subs \/ ~SetupOk(Get(c, "setup", <<>>)) THEN Failed
    ELSE LET s == subs[c.device_type]
             m == MergeChannels(s.channels, Get(c, "channels", <<>>), subs)
         IN IF ~m.ok THEN Failed
            ELSE [ok |-> TRUE, c |-> [k \in (DOMAIN c \cap {"device_type", "name", "shift", "stride", "id"}) \cup {"channels", "setup"} |->
                     IF k = "channels" THEN m.chs
                     ELSE IF k = "setup" THEN Setup(s, Get(c, "setup", <<>>), Get(c, "P", Nil), <<>>, FALSE)
                     ELSE c[k]]]

Prop(t, dev, k, default) == IF Has(dev, k) THEN dev[k] ELSE IF t # <<>> /\ Has(t[1].dev, k) THEN t[1].dev[k] ELSE default
Sid(dev) == IF Has(dev, "slave_id") THEN dev.slave_id.s ELSE ""
\* t is <<template>> or <<>>
DeviceId(t, dev, defid) ==
    IF Has(dev, "id") THEN dev.id
    ELSE IF t # <<>> /\ Has(t[1].dev, "id") THEN t[1].dev.id \o After("_", Sid(dev)) ELSE defid
DeviceName(t, dev) ==
    IF Has(dev, "name") THEN dev.name ELSE IF t # <<>> THEN Get(t[1].dev, "name", "") \o After(" ", Sid(dev)) ELSE ""
MergeDevice(t, dev, codes) ==
    IF t = <<>> THEN [ok |-> TRUE, chs |-> dev.channels, setup |-> dev.setup]
    ELSE LET d == t[1].dev
             ps == TLCEval(IntPairs(WithDefaults(dev.P, d.params), codes))
             m == MergeChannels(d.channels, dev.channels, Subs(d))
         IN IF ~SetupOk(dev.setup) \/ ~m.ok THEN Failed
            ELSE [ok |-> TRUE, chs |-> SelectSeq(m.chs, LAMBDA c : Holds(c, ps)), setup |-> Setup(d, dev.setup, dev.P, ps, TRUE)]

-----------------------------------------------------------------------------
(* Names shown to the user: ctx has the translations tr of the template (hastr: there is one), the translated names tp  *)
(* of the channel around, and its part mp of the topic                                                                  *)
Translate(name, idDef, ctx) ==
    IF ~ctx.hastr
    THEN IF "en" \in DOMAIN ctx.tp THEN [en |-> ctx.tp["en"] \o name] ELSE IF idDef THEN [en |-> name] ELSE Nil
    ELSE LET A == {g \in DOMAIN ctx.tr : name \in DOMAIN ctx.tr[g]}
             L == A \cup DOMAIN ctx.tp \cup (IF idDef THEN {"en"} ELSE {})
         IN [g \in L |-> IF g \in A
                         THEN (IF g \in DOMAIN ctx.tp THEN ctx.tp[g] \o " " ELSE IF "en" \in DOMAIN ctx.tp THEN ctx.tp["en"] \o " "
                               ELSE IF ctx.mp = "" THEN "" ELSE ctx.mp \o " ") \o ctx.tr[g][name]
                         ELSE IF g \in DOMAIN ctx.tp THEN ctx.tp[g] \o " " \o name
                         ELSE Join(ctx.mp, name)]
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}

-----------------------------------------------------------------------------
(* Loading: st has the channels chs and setup items su so far; ok = FALSE refuses the whole configuration *)
Bad(st) == [st EXCEPT !.ok = FALSE]
LoadSetupItem(st, s, ctx) ==
    LET x == LoadReg(s, ctx.base, ctx.stride)
        name == Join(ctx.np, Get(s, "title", "<unnamed>"))
    IN IF ~x.ok THEN Bad(st)
       ELSE LET key == <<x.r.tn, x.dup, x.r.off, x.r.w>> IN
            \* of several commands for one register the first one counts
            IF key \in st.keys THEN st
            ELSE [st EXCEPT !.keys = @ \cup {key}, !.su = Append(@, [r |-> x.r, idx |-> x.idx, n |-> name, v |-> s.value])]
LoadSetup(st, setup, ctx) == Fold(LAMBDA acc, s : IF acc.ok THEN LoadSetupItem(acc, s, ctx) ELSE acc, st, setup)

Disabled(c) == ~Get(c, "enabled", TRUE) /\ ~Get(c, "hidden", FALSE)
Simple(st, c, ctx) ==
    LET id0 == Get(c, "id", c.name)
        id == Join(ctx.mp, id0)
        many == Has(c, "consists_of")
        xs == IF many THEN [i \in DOMAIN c.consists_of |-> LoadReg(c.consists_of[i], ctx.base, ctx.stride)]
              ELSE <<LoadReg(c, ctx.base, ctx.stride)>>
        allok == \A i \in DOMAIN xs : xs[i].ok
        lim == Larger(Get(c, "read_rate_limit_ms", -1), -1)
        per == Larger(Get(c, "read_period_ms", -1), -1)
        type0 == Get(c, "type", xs[1].ctl)
        wonly == type0 \in {"wo-switch", "pushbutton"}
        regs == [i \in DOMAIN xs |->
                   LET r == IF many THEN [xs[i].r EXCEPT !.lim = lim, !.per = per] ELSE [xs[i].r EXCEPT !.fw = Get(c, "fw", "")]
                   IN IF wonly THEN [r EXCEPT !.acc = "wo", !.a = -1] ELSE r]
        en == IF ~Has(c, "enum") THEN {}
              ELSE IF ~Has(c, "enum_titles") THEN {<<c.enum[i], {}>> : i \in DOMAIN c.enum}
              ELSE IF Len(c.enum) # Len(c.enum_titles) THEN {}
              ELSE {<<c.enum[i], Pairs(Translate(c.enum_titles[i], TRUE, ctx))>> : i \in DOMAIN c.enum}
        ch == [id |-> id, type |-> IF type0 = "wo-switch" THEN "switch" ELSE type0, order |-> Len(st.chs) + 1,
               ro |-> regs[1].acc = "ro", units |-> Get(c, "units", ""), hidden |-> Get(c, "hidden", FALSE),
               max |-> Get(c, "max", "nan"), min |-> Get(c, "min", "nan"), on |-> Get(c, "on_value", ""), off |-> Get(c, "off_value", ""),
               prec |-> IF Len(regs) = 1 THEN regs[1].rt ELSE "0", dev |-> ctx.dev,
               titles |-> Pairs(Translate(c.name, Has(c, "id"), ctx)), enum |-> en, regs |-> regs]
    IN IF ~allok THEN IF many THEN Bad(st) ELSE st
       ELSE IF many /\ \E i, j \in DOMAIN xs : xs[i].r.acc # xs[j].r.acc THEN Bad(st)
       ELSE IF Len(regs) # 1 /\ (Has(c, "on_value") \/ Has(c, "off_value")) THEN Bad(st)
       ELSE [st EXCEPT !.chs = Append(@, ch)]
RECURSIVE LoadChannels(_, _, _), Group(_, _, _)
LoadChannels(st, chs, ctx) ==
    Fold(LAMBDA acc, c : IF ~acc.ok \/ Disabled(c) THEN acc
                         ELSE LET x == IF Has(c, "device_type") THEN Group(acc, c, ctx) ELSE Simple(acc, c, ctx)
                              IN [x EXCEPT !.sponly = @ /\ Get(c, "sporadic", FALSE)], st, chs)
Group(st, c, ctx) ==
    LET id == Get(c, "id", c.name)
        hidden == Has(c, "id") /\ c.id = ""
        sub == [ctx EXCEPT !.np = Join(@, c.name), !.mp = Join(@, id), !.base = @ + Get(c, "shift", 0), !.stride = Get(c, "stride", 0),
                           !.tp = IF hidden THEN Nil ELSE Translate(c.name, Has(c, "id"), ctx)]
        s1 == LoadSetup(st, Get(c, "setup", <<>>), sub)
    IN IF s1.ok THEN LoadChannels(s1, Get(c, "channels", <<>>), sub) ELSE s1

\* the order of setup items: by register; items that come to the same place are one
Before(x, y) == LET a == <<x.idx, x.r.wa, x.r.off>>
                    b == <<y.idx, y.r.wa, y.r.off>>
                IN a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Insert(s, x) ==
    IF \E i \in DOMAIN s : ~Before(s[i], x) /\ ~Before(x, s[i]) THEN s
    ELSE LET n == Cardinality({i \in DOMAIN s : Before(s[i], x)}) IN SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
Ordered(su, keep) == IF keep THEN su ELSE Fold(Insert, <<>>, su)

-----------------------------------------------------------------------------
(* Old settings in the user's configuration *)
FixInterval(x) == IF ~Has(x, "poll_interval") THEN x
                  ELSE [k \in (DOMAIN x \ {"poll_interval"}) \cup {"read_rate_limit_ms"} |->
                          IF k = "read_rate_limit_ms" THEN (IF Has(x, k) THEN x[k] ELSE x.poll_interval) ELSE x[k]]
FixDevice(dev, T) ==
    LET t == Get(dev, "device_type", "")
        names == IF t \in DOMAIN T THEN {T[t].dev.channels[i].name : i \in DOMAIN T[t].dev.channels} ELSE {}
        keep(c) == Has(c, "address") \/ Has(c, "write_address") \/ Has(c, "consists_of") \/ c.name \in names
        chs == SelectSeq([i \in DOMAIN dev.channels |-> FixInterval(dev.channels[i])], keep)
    IN ("channels" :> chs) @@ ("P" :> Get(dev, "P", Nil)) @@ FixInterval(dev)

-----------------------------------------------------------------------------
(* A device as it is used; defs: the port's settings *)
Uses(dev, T) == IF Has(dev, "device_type") THEN <<T[dev.device_type]>> ELSE <<>>
Protocol(t, dev) == IF t # <<>> THEN Get(t[1].dev, "protocol", "modbus") ELSE Get(dev, "protocol", "modbus")
\* (a template's protocol cannot be changed)
\* one device on the line may have no address
Broadcast == {"mercury230", "neva", "energomera_iec", "energomera_iec_mode_c", "iec_mode_c"}
LoadDevice(dev, T, port, defid, codes) ==
    LET t == Uses(dev, T)
        proto == Protocol(t, dev)
        m == TLCEval(MergeDevice(t, dev, codes))
        num(k, default) == Prop(t, dev, k, default)
        id == DeviceId(t, dev, defid)
        wb == t # <<>> /\ (t[1].hw \/ Get(t[1].dev, "enable_wb_continuous_read", FALSE))
        keep == Prop(t, dev, "preserve_setup_order", FALSE)
        tr == TLCEval(IF t = <<>> THEN Nil ELSE LET f == AsFun(t[1].dev.tr) IN [g \in DOMAIN f |-> AsFun(f[g])])
        ctx == [np |-> "", mp |-> "", base |-> 0, stride |-> 0, tp |-> Nil, tr |-> tr, hastr |-> t # <<>>, dev |-> id]
        s0 == [ok |-> TRUE, chs |-> <<>>, su |-> <<>>, keys |-> {}, sponly |-> TRUE]
        s1 == LoadSetup(s0, m.setup, ctx)
        s2 == LoadChannels(s1, m.chs, ctx)
        frame == num("frame_timeout_ms", 20)
        gi == num("guard_interval_us", 0)
        dl == Larger(num("read_rate_limit_ms", -1), -1)
        lim == IF dl >= 0 THEN dl ELSE port.rl
    IN IF ~m.ok \/ (proto \notin Broadcast /\ (~Has(dev, "slave_id") \/ dev.slave_id.n < 0)) THEN Failed
       ELSE IF ~s1.ok \/ ~s2.ok THEN Failed
       ELSE [ok |-> TRUE,
             d |-> [id |-> id, name |-> DeviceName(t, dev), type |-> Get(dev, "device_type", ""), sid |-> Sid(dev),
                    proto |-> IF port.tcp THEN proto \o "-tcp" ELSE proto, wb |-> wb,
                    delay |-> IF gi = 0 THEN port.delay ELSE gi, resp |-> num("response_timeout_ms", -1),
                    frame |-> IF frame < 0 THEN 20 ELSE frame, tmo |-> num("device_timeout_ms", 3000),
                    cyc |-> num("device_max_fail_cycles", 2), wrfail |-> num("max_write_fail_time_s", 600),
                    hole |-> num("max_reg_hole", 0), bithole |-> num("max_bit_hole", 0), maxread |-> num("max_read_registers", 1),
                    minread |-> num("min_read_registers", 1), maxwrite |-> num("max_write_registers", IF wb THEN 123 ELSE 1),
                    minint |-> num("min_request_interval", 0), order |-> keep,
                    cont |-> Prop(t, dev, "continue_polling_on_illegal_modbus_exception", FALSE), sponly |-> s2.sponly,
                    pw |-> Prop(t, dev, "password", <<>>),
                    setup |-> LET o == Ordered(s2.su, keep) IN [i \in DOMAIN o |-> ("n" :> o[i].n) @@ ("v" :> o[i].v) @@ o[i].r],
                    ch |-> [i \in DOMAIN s2.chs |-> [s2.chs[i] EXCEPT !.regs = [k \in DOMAIN @ |-> IF @[k].lim < 0 THEN [@[k] EXCEPT !.lim = lim] ELSE @[k]]]]]]

-----------------------------------------------------------------------------
(* Names that must differ *)
On(x) == Get(x, "enabled", TRUE)
IdOf(dev, T, pi, di) == DeviceId(Uses(dev, T), dev, "wb-modbus-" \o ToString(pi) \o "-" \o ToString(di))
IecProtocols == {"neva", "energomera_iec", "energomera_iec_mode_c", "iec_mode_c"}
SameSid(proto, a, b) ==
    IF proto \in IecProtocols THEN Sid(a) = "" \/ Sid(b) = "" \/ Sid(a) = Sid(b)
    ELSE IF proto = "mercury230" /\ (Sid(a) = "" \/ Sid(b) = "") THEN TRUE
    ELSE LET none == [n |-> -1, sub |-> -1]
             x == Get(a, "slave_id", none)
             y == Get(b, "slave_id", none)
         IN x.n = y.n /\ (proto = "modbus_io" => x.sub = y.sub)
IsModbus(proto) == proto \in {"modbus", "modbus_io"}

\* every device of the configuration, also when it or its port is switched off, is checked
Refused(dev, T, codes) ==
    Has(dev, "device_type") /\ (\/ dev.device_type \notin DOMAIN T
                                \/ ~ValidTemplate(T[dev.device_type])
                                \/ ~OneDeclaration(T[dev.device_type], dev, codes))
PortOf(p) == LET q == FixInterval(p) IN
             [tcp |-> p.tcp, n |-> p.n, delay |-> Get(p, "guard_interval_us", 0), rl |-> Larger(Get(q, "read_rate_limit_ms", -1), -1),
              mft |-> Get(p, "connection_timeout_ms", 5000), mfc |-> Get(p, "connection_max_fail_cycles", 2),
              resp |-> Get(p, "response_timeout_ms", -1)]
Numbers(s, Test(_)) == Fold(LAMBDA acc, i : IF Test(s[i]) THEN Append(acc, i) ELSE acc, <<>>, [i \in DOMAIN s |-> i])
\* the devices of the ports that are switched on
Used(p, T) == LET idx == Numbers(p.devices, On) IN [k \in DOMAIN idx |-> [i |-> idx[k] - 1, d |-> FixDevice(p.devices[idx[k]], T)]]
Load(C, T, codes) ==
    LET pidx == Numbers(C.ports, On)
        refused == \E i \in DOMAIN C.ports : \E k \in DOMAIN C.ports[i].devices : Refused(FixDevice(C.ports[i].devices[k], T), T, codes)
        used == TLCEval([i \in DOMAIN pidx |-> Used(C.ports[pidx[i]], T)])
        All == {<<i, k>> : i \in DOMAIN pidx, k \in 1 .. 40} \cap UNION {{<<i, k>> : k \in DOMAIN used[i]} : i \in DOMAIN pidx}
        dev(x) == used[x[1]][x[2]]
        proto(x) == Protocol(Uses(dev(x).d, T), dev(x).d)
        id(x) == IdOf(dev(x).d, T, pidx[x[1]] - 1, dev(x).i)
        same(x, y) == \/ id(x) = id(y)
                      \/ x[1] = y[1] /\ proto(x) = proto(y) /\ SameSid(proto(x), dev(x).d, dev(y).d)
        loaded == TLCEval([i \in DOMAIN pidx |->
                     [k \in DOMAIN used[i] |->
                        LoadDevice(used[i][k].d, T, PortOf(C.ports[pidx[i]]),
                                   "wb-modbus-" \o ToString(pidx[i] - 1) \o "-" \o ToString(used[i][k].i), codes)]])
        mui == Get(C, "max_unchanged_interval", -1)
    IN IF refused THEN [bad |-> TRUE, dup |-> FALSE]
       ELSE [bad |-> \E x \in All : (C.ports[pidx[x[1]]].tcp /\ ~IsModbus(proto(x))) \/ ~loaded[x[1]][x[2]].ok,
             dup |-> \/ \E i, j \in DOMAIN pidx : i # j /\ C.ports[pidx[i]].n = C.ports[pidx[j]].n
                     \/ \E x, y \in All : x # y /\ same(x, y),
             lim |-> IF Has(C, "rate_limit") THEN {C.rate_limit} ELSE {100, 800},
             mui |-> IF mui < 0 THEN -1 ELSE IF mui \in 1 .. 4 THEN 5 ELSE mui,
             ports |-> [i \in DOMAIN pidx |-> IF \E x \in All : ~loaded[x[1]][x[2]].ok THEN <<>> ELSE [k \in {"n", "delay", "rl", "mft", "mfc", "resp", "devs"} |->
                          IF k = "devs" THEN [j \in DOMAIN loaded[i] |-> loaded[i][j].d] ELSE PortOf(C.ports[pidx[i]])[k]]]]
=============================================================================
