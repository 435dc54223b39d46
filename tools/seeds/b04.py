ID = "write-cache-before-answer"
PROP = "P07"
EDITS = [("src/modbus_common.cpp", """            size_t regCount = ComposeRawMultipleWriteRequestData(data, reg, value, cache, tmpCache);
            WriteTransaction(traits,
                             port,
                             slaveId,
                             fn,
                             Modbus::CalcResponsePDUSize(fn, regCount),""", """            size_t regCount = ComposeRawMultipleWriteRequestData(data, reg, value, cache, tmpCache);
            for (const auto& item: tmpCache) {
                cache.insert_or_assign(item.first, item.second);
            }
            WriteTransaction(traits,
                             port,
                             slaveId,
                             fn,
                             Modbus::CalcResponsePDUSize(fn, regCount),""")]
NEEDS = ("two bit fields in the same two words, a write of the first is refused for good by the device or given up, and the "
         "second one is written before the words are read again")
BREAKS = "the write of the second field sends the refused bits of the first field to the device"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 5, "a": 10, "fmt": "u32", "off": 0, "w": 8, "per": 2000}, {"ty": 5, "a": 10, "fmt": "u32", "off": 8, "w": 8, "per": 2000}]
# acts = [{"t": 300000, "a": "fault", "d": 0, "n": 1, "kind": "exc", "c": 3},
#         {"t": 300001, "a": "set", "i": 0, "x": "170"}, {"t": 500000, "a": "set", "i": 1, "x": "5"}]
# sc = {"id": "x", "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 1000, "fast": False}, "tmo": 3000, "cyc": 2,
#       "maxwrite": 10, "maxread": 10, "frame": 5}], "acts": acts, "dur": 1500000, "maxev": 3000}
# def judge(ev, s):
#     w = [e for e in ev if e["o"] == "req" and e["f"] == 16]
#     good = [e for e in w if e["r"] == "ok"]
#     if len(w) < 2 or not good:
#         return "not both written: %s" % w
#     first, last = w[0], good[-1]
#     if (last["d"][1] & 0xFF) == 170 and first["r"] != "ok":
#         return "a refused value was written with another register: %s" % last
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
