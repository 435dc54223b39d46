ID = "refused-register-stays-refused"
PROP = "P11"
EDITS = [("src/pollable_device.cpp", """                    reg->SetAvailable(TRegisterAvailability::UNKNOWN);
                    reg->IncludeInPolling();""", """                    if (reg->GetAvailable() != TRegisterAvailability::UNAVAILABLE || reg->GetConfig()->IsHighPriority()) {
                        reg->SetAvailable(TRegisterAvailability::UNKNOWN);
                    }
                    reg->IncludeInPolling();""")]
NEEDS = "a register the device refused is there after the device reconnected (with other firmware)"
BREAKS = "the register is never read again"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 0, "a": 10, "fmt": "u16", "acc": "ro", "lim": 300}, {"ty": 0, "a": 20, "fmt": "u16", "acc": "ro", "lim": 500}]
# sc = {"id": "x", "tcp": False, "fresh": 0, "rl": 0, "oc": {"fail": -1, "cyc": -1, "reopen": 3000},
#       "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 500, "fast": False}, "tmo": 500, "cyc": 1, "frame": 20, "hole": 0,
#                 "bithole": 2, "maxread": 10, "maxwrite": 2, "cont": False, "wrfail": 600, "order": True}],
#       "acts": [{"t": 0, "a": "fault", "d": 0, "n": 1, "kind": "exc", "c": 2, "ad": 10},
#                {"t": 2000000, "a": "off", "d": 0}, {"t": 8000000, "a": "on", "d": 0}], "dur": 25000000, "maxev": 3000}
# def judge(ev, s):
#     n = len([e for e in ev if e["o"] == "req" and e["a"] == 10 and e["t"] > 8000000])
#     if n < 10:
#         return "the register was read %d times after the reconnection" % n
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
