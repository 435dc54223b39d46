ID = "range-shrinks-on-overlap"
PROP = "P05"
EDITS = [("src/modbus_common.cpp", "extend = std::max(0, static_cast<int>(addr + widthInWords) - static_cast<int>(Start + Count));",
          "extend = addr + widthInWords - Start - Count;")]
NEEDS = "a register of several words, and another one that lies inside it, due in the same request"
BREAKS = "fewer words are read than the wide register has, its value is taken from beyond the answer"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 0, "a": 10, "fmt": "u64", "acc": "ro", "lim": 500}, {"ty": 0, "a": 11, "fmt": "u16", "acc": "ro", "lim": 500}]
# sc = {"id": "x", "tcp": False, "fresh": 0, "rl": 0, "oc": {"fail": -1, "cyc": -1, "reopen": 3000},
#       "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 500, "fast": False}, "tmo": 500, "cyc": 1, "frame": 20, "hole": 5,
#                 "bithole": 2, "maxread": 10, "maxwrite": 2, "cont": False, "wrfail": 600, "order": True}],
#       "acts": [{"t": 2000000, "a": "susp", "d": 0}, {"t": 3000000, "a": "res", "d": 0}], "dur": 8000000, "maxev": 3000}
# def judge(ev, s):
#     joined = 0
#     for e in ev:
#         if e["o"] == "req" and e["a"] == 10 and e["n"] < 4:
#             return "only %d words of four were read" % e["n"]
#     wide = [e for e in ev if e["o"] == "pub" and e["i"] == 0]
#     if len(wide) < 5:
#         return "the wide register was read %d times" % len(wide)
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
