ID = "limit-counts-requests"
PROP = "P02"
EDITS = [("src/serial_client_register_poller.cpp", """        if (reader.GetDevice()->GetPriority() == TPriority::Low) {
            LowPriorityRateLimiter.NewItem(spentTime.GetStartTime());
        }
    }
    ScheduleNextPoll""", """    }
    if (reader.GetDevice()->GetPriority() == TPriority::Low) {
        LowPriorityRateLimiter.NewItem(spentTime.GetStartTime());
    }
    ScheduleNextPoll""")]
NEEDS = "a read rate limit and registers without a period that are read several at once"
BREAKS = "the limiter counts requests instead of registers: the limit is exceeded by the number of registers in a request"
#DEMO
# import demorun, clientgen
# regs = [{"ty": 0, "a": k, "fmt": "u16"} for k in range(10)]
# sc = {"id": "x", "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 1000, "fast": False}, "tmo": 3000, "cyc": 2,
#       "maxread": 10, "frame": 5}], "acts": [], "dur": 5000000, "maxev": 3000, "rl": 10}
# def judge(ev, s):
#     per = {}
#     for e in ev:
#         if e["o"] == "req" and e["f"] == 3 and e["a"] < 100:
#             k = e["t"] // 1000000
#             per[k] = per.get(k, 0) + e["n"]
#     worst = max(per.values())
#     if worst > 40:
#         return "%d registers read in a second, the limit is 10" % worst
# demorun.run("client", [clientgen.flat(sc)], judge)
#END
