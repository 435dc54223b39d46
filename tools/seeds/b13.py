ID = "failures-count-over-successes"
PROP = "P09"
EDITS = [("src/serial_device.cpp", """        LastSuccessfulCycle = std::chrono::steady_clock::now();
        SetConnectionState(TDeviceConnectionState::CONNECTED);
        RemainingFailCycles = _DeviceConfig->DeviceMaxFailCycles;""", """        LastSuccessfulCycle = std::chrono::steady_clock::now();
        if (ConnectionState != TDeviceConnectionState::CONNECTED) {
            RemainingFailCycles = _DeviceConfig->DeviceMaxFailCycles;
        }
        SetConnectionState(TDeviceConnectionState::CONNECTED);""")]
NEEDS = "failures with successes between them, then a failure later than the timeout after a success"
BREAKS = "the device is declared lost after fewer failures in a row than configured"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 0, "a": 10, "fmt": "u16", "acc": "ro", "per": 700}]
# sc = {"id": "x", "tcp": False, "fresh": 0, "rl": 0, "oc": {"fail": -1, "cyc": -1, "reopen": 3000},
#       "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 500, "fast": False}, "tmo": 500, "cyc": 3, "frame": 20, "hole": 0,
#                 "bithole": 2, "maxread": 10, "maxwrite": 2, "cont": False, "wrfail": 600, "order": True}],
#       "acts": [{"t": 2000000 * k, "a": "fault", "d": 0, "n": 1, "kind": "to", "c": 50} for k in range(1, 8)], "dur": 20000000, "maxev": 3000}
# def judge(ev, s):
#     bad = 0
#     for e in ev:
#         if e["o"] == "req":
#             bad = bad + 1 if e["r"] != "ok" else 0
#         if e["o"] == "conn" and e["st"] == "D" and bad < 3:
#             return "lost after %d failures in a row" % bad
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
