ID = "resumed-by-half"
PROP = "P24"
EDITS = [("src/serial_client_register_poller.cpp", """    auto range = Devices.equal_range(device);
    for (auto it = range.first; it != range.second; ++it) {
        it->second->RescheduleAllRegisters();
        Scheduler.AddEntry(it->second, it->second->GetDeadline(), it->second->GetPriority());
    }

    DevicesWithSpendedPoll.erase(device);""", """    auto it = Devices.find(device);
    if (it != Devices.end()) {
        it->second->RescheduleAllRegisters();
        Scheduler.AddEntry(it->second, it->second->GetDeadline(), it->second->GetPriority());
    }

    DevicesWithSpendedPoll.erase(device);""")]
NEEDS = "polling is suspended and resumed for a device that has both channels with and without a read period"
BREAKS = "one of the two groups of channels is not polled any more"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 0, "a": 10, "fmt": "u16", "acc": "ro", "per": 500}, {"ty": 0, "a": 20, "fmt": "u16", "acc": "ro", "lim": 500}]
# sc = {"id": "x", "tcp": False, "fresh": 0, "rl": 0, "oc": {"fail": -1, "cyc": -1, "reopen": 3000},
#       "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 500, "fast": False}, "tmo": 500, "cyc": 1, "frame": 20, "hole": 0,
#                 "bithole": 2, "maxread": 10, "maxwrite": 2, "cont": False, "wrfail": 600, "order": True}],
#       "acts": [{"t": 2000000, "a": "susp", "d": 0}, {"t": 4000000, "a": "res", "d": 0}], "dur": 12000000, "maxev": 3000}
# def judge(ev, s):
#     for a in (10, 20):
#         n = len([e for e in ev if e["o"] == "req" and e["a"] == a and e["t"] > 4000000])
#         if n < 8:
#             return "register %d was read %d times after polling was resumed" % (a, n)
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
