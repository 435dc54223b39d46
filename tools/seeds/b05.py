ID = "set-during-write-lost"
PROP = "P08"
EDITS = [("src/register_handler.cpp", """            std::lock_guard<std::mutex> lock(SetValueMutex);
            Dirty = (tempValue != ValueToSet);
            WriteFail = false;
        }
        Reg->SetValue""", """            std::lock_guard<std::mutex> lock(SetValueMutex);
            Dirty = false;
            WriteFail = false;
        }
        Reg->SetValue""")]
NEEDS = "a new value is set while the write of the previous one is on the line"
BREAKS = "the newer value is never written"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 0, "a": 10, "fmt": "u16", "per": 3000}]
# acts = []
# for k in range(40):
#     acts.append({"t": 300000 + 100000 * k, "a": "set", "i": 0, "x": str(2 * k + 1)})
#     acts.append({"t": 300000 + 100000 * k + 1000 + 300 * k, "a": "set", "i": 0, "x": str(2 * k + 2)})
# sc = {"id": "x", "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 5000, "fast": False}, "tmo": 3000, "cyc": 2,
#       "frame": 5, "resp": 500}], "acts": acts, "dur": 6000000, "maxev": 3000}
# def judge(ev, s):
#     last, written = None, None
#     for e in ev:
#         if e["o"] == "set":
#             if last is not None and written != last and e["xv"][0] % 2 == 1:
#                 return "value %s was never written" % last
#             last = e["xv"][0]
#         if e["o"] == "req" and e["f"] == 6 and e["r"] == "ok":
#             written = e["d"][0]
#     if written != last:
#         return "the last value %s was never written" % last
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
