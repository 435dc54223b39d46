ID = "lost-answer-forgets-confirmation"
PROP = "P12"
EDITS = [("src/serial_client_events_reader.cpp", """        } catch (const TSerialDeviceException& ex) {
            ReadEventsFailed(ex.what(), registerCallback);
        } catch""", """        } catch (const TSerialDeviceException& ex) {
            EventState.Reset();
            ReadEventsFailed(ex.what(), registerCallback);
        } catch""")]
NEEDS = "a request for events that confirms a packet, or its answer, is lost on the line"
BREAKS = "the packet is not confirmed in the next request, its events come once more"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 0, "a": 10, "fmt": "u16", "acc": "ro", "sp": 1}, {"ty": 0, "a": 20, "fmt": "u16", "acc": "ro", "lim": 500}]
# acts = []
# for k in range(20):
#     t = 1000000 + 250000 * k
#     acts.append({"t": t, "a": "event", "d": 0, "ty": 3, "ad": 10, "vs": [k + 1]})
#     if k % 3 == 2:
#         acts.append({"t": t, "a": "evfault", "n": 1, "kind": ""})
#         acts.append({"t": t, "a": "evfault", "n": 1, "kind": "lost"})
# sc = {"id": "x", "tcp": False, "fresh": 0, "rl": 0, "mge": True, "arbff": 0, "minresp": 0, "oc": {"fail": -1, "cyc": -1, "reopen": 3000},
#       "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 500, "fast": True}, "tmo": 3000, "cyc": 2, "frame": 20, "hole": 0,
#                 "bithole": 2, "maxread": 10, "maxwrite": 2, "cont": False, "wrfail": 600, "order": True}],
#       "acts": acts, "dur": 8000000, "maxev": 3000}
# def judge(ev, s):
#     ack, lost = (0, 0), 0
#     for e in ev:
#         if e["o"] != "evr":
#             continue
#         if (e["as"], e["af"]) != ack:
#             return "confirmed %s instead of %s" % ((e["as"], e["af"]), ack)
#         if e["r"] == "ev":
#             ack = (e["s"], e["fl"])
#         elif e["r"] == "none":
#             ack = (0, 0)
#         else:
#             lost += 1
#     if lost == 0:
#         return "nothing was lost"
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
