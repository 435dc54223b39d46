ID = "tcp-any-older-transaction"
PROP = "P04"
EDITS = [("src/modbus_base.cpp", """        // check transaction id
        if (((transactionId >> 8) & 0xFF) == response[0] && (transactionId & 0xFF) == response[1]) {""",
"""        // check transaction id
        if (((transactionId >> 8) & 0xFF) == response[0] && (transactionId & 0xFE) == (response[1] & 0xFE)) {""")]
NEEDS = "Modbus TCP, an answer to an earlier request arrives late, while the next request with an odd transaction id waits"
BREAKS = "the late answer of the previous transaction is taken for the answer of this one"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 0, "a": 10, "fmt": "u16"}, {"ty": 0, "a": 50, "fmt": "u16"}]
# acts = [{"t": 200000 + 37000 * k, "a": "fault", "d": 0, "n": 1, "kind": "stale", "c": 400} for k in range(60)]
# sc = {"id": "x", "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 1000, "fast": False}, "tmo": 3000, "cyc": 2,
#       "maxread": 1, "frame": 5}], "acts": acts, "dur": 5000000, "maxev": 3000, "tcp": True}
# def judge(ev, s):
#     # the simulated registers never change: a different value comes from another register's answer
#     seen = {}
#     for e in ev:
#         if e["o"] == "pub" and not e["re"] and e["def"]:
#             seen.setdefault(e["i"], set()).add(str(e["v"]))
#     for i, v in seen.items():
#         if len(v) > 1:
#             return "register %d got values %s" % (i, sorted(v))
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
