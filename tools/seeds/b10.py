PROP = "P12"
EDITS = [("src/serial_client_events_reader.cpp", """            for (auto reg: regArray->second) {
                reg->SetValue(TRegisterValue(value));
                RegisterChangedCallback(reg);
            }
        } else""", """            for (auto reg: regArray->second) {
                if (reg->GetValue() != TRegisterValue(value)) {
                    reg->SetValue(TRegisterValue(value));
                    RegisterChangedCallback(reg);
                }
            }
        } else""")]
ID = "event-with-same-value"
NEEDS = "an event carries the value the channel had when its reading failed"
BREAKS = "the event is dropped and the read error of the channel stays"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 0, "a": 10, "fmt": "u16", "acc": "ro", "sp": 1}, {"ty": 0, "a": 20, "fmt": "u16", "acc": "ro", "lim": 500}]
# acts = []
# for k in range(8):
#     acts.append({"t": 1000000 + 250000 * k, "a": "event", "d": 0, "ty": 3, "ad": 10, "vs": [k // 2 + 1], "force": True})
# sc = {"id": "x", "tcp": False, "fresh": 0, "rl": 0, "mge": True, "arbff": 0, "minresp": 0, "oc": {"fail": -1, "cyc": -1, "reopen": 3000},
#       "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 500, "fast": True}, "tmo": 3000, "cyc": 2, "frame": 20, "hole": 0,
#                 "bithole": 2, "maxread": 10, "maxwrite": 2, "cont": False, "wrfail": 600, "order": True}],
#       "acts": acts, "dur": 5000000, "maxev": 3000}
# def judge(ev, s):
#     due = 0
#     for e in ev:
#         if e["o"] == "evr":
#             if due:
#                 return "an event changed nothing"
#             if e["r"] == "ev":
#                 due = len(e["ev"])
#         if e["o"] == "pub" and e["i"] == 0 and e["k"] == "r" and due:
#             due -= 1
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
