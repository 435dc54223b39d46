ID = "reopened-port-keeps-old-count"
PROP = "P14"
EDITS = [("src/port/port.cpp", """    LastSuccessfulCycle = NowFn();
    RemainingFailCycles = Settings.ConnectionMaxFailCycles;
}""", """    LastSuccessfulCycle = NowFn();
}""")]
NEEDS = "the port was closed after failures and is opened again, and the first poll after it fails late"
BREAKS = "the port is closed after one failed cycle"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 0, "a": 10, "fmt": "u16", "acc": "ro", "per": 700}]
# sc = {"id": "x", "tcp": False, "fresh": 0, "rl": 0, "oc": {"fail": 100, "cyc": 4, "reopen": 1000},
#       "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 500, "fast": False}, "tmo": 500, "cyc": 1, "frame": 20, "hole": 0,
#                 "bithole": 2, "maxread": 10, "maxwrite": 2, "cont": False, "wrfail": 600, "order": True}],
#       "acts": [{"t": 2000000, "a": "off", "d": 0}], "dur": 90000000, "maxev": 3000}
# def judge(ev, s):
#     cy, n, closes = set(), 0, 0
#     for e in ev:
#         if e["o"] == "open":
#             cy = set()
#         if e["o"] == "req":
#             if e["r"] == "ok":
#                 cy = set()
#             else:
#                 cy.add(e["cy"])
#         if e["o"] == "close":
#             closes += 1
#             if len(cy) < 3:
#                 return "closed after %d failed cycles" % len(cy)
#     if closes < 2:
#         return "closed %d times" % closes
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
