ID = "polled-and-evented-left-alone"
PROP = "P13"
EDITS = [("src/serial_client_events_reader.cpp", "if (reg->GetConfig()->SporadicMode == TRegisterConfig::TSporadicMode::ONLY_EVENTS) {",
          "if (reg->GetConfig()->SporadicMode == TRegisterConfig::TSporadicMode::ONLY_EVENTS ||\n                    regArray->second.front()->IsExcludedFromPolling()) {")]
NEEDS = "two channels of one register, the first with events only, the second with events and polling"
BREAKS = "the second one is not polled any more"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 0, "a": 10, "fmt": "u16", "acc": "ro", "sp": 1}, {"ty": 0, "a": 10, "fmt": "u16", "acc": "ro", "sp": 2, "lim": 200},
#         {"ty": 0, "a": 20, "fmt": "u16", "acc": "ro", "lim": 500}]
# sc = {"id": "x", "tcp": False, "fresh": 0, "rl": 0, "mge": True, "arbff": 0, "minresp": 0, "oc": {"fail": -1, "cyc": -1, "reopen": 3000},
#       "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 500, "fast": True}, "tmo": 3000, "cyc": 2, "frame": 20, "hole": 0,
#                 "bithole": 2, "maxread": 10, "maxwrite": 2, "cont": False, "wrfail": 600, "order": True}],
#       "acts": [], "dur": 5000000, "maxev": 3000}
# def judge(ev, s):
#     n = len([e for e in ev if e["o"] == "req" and e["a"] == 10])
#     if n < 10:
#         return "the polled register was read %d times" % n
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
