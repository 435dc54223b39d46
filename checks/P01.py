"""P01: order and fairness of the poll plan."""
import vlib


def scenario(rnd, n, ids=6):
    """Random operations; entries are added only while not in the queue (as the poller does)."""
    ops, now, inq = [], 0, set()
    lag = rnd.choice([10, 100, 500, 1000])
    step = rnd.choice([1, 1000, 1000, 7300, 50000])
    for i in range(n):
        o = rnd.choice(["add"] * 4 + ["acc"] * 5 + ["upd"] * 3 + ["rem", "rst", "rnew", "rover", "rnew"])
        now += rnd.choice([0, 1, step, step * 3, rnd.randrange(1, 200000)])
        if o == "add":
            p = rnd.choice("HL")
            e = rnd.randrange(ids)
            if (e, p) in inq:
                ops.append({"o": "rem", "e": e})
                inq -= {(e, "H"), (e, "L")}
            inq.add((e, p))
            d = max(0, now + rnd.choice([0, 1, -step, step, rnd.randrange(-5, 6) * 1000, rnd.randrange(0, 300) * 500]))
            ops.append({"o": "add", "e": e, "d": d, "p": p})
        elif o == "rem":
            e = rnd.randrange(ids)
            inq -= {(e, "H"), (e, "L")}
            ops.append({"o": "rem", "e": e})
        elif o == "acc":
            # the trace does not say what was popped before it ran: entries are removed explicitly before being added again
            ops.append({"o": "acc", "t": now, "k": rnd.choice([0, 1, 1, 2, 9]), "only": rnd.random() < 0.2})
        elif o == "upd":
            ops.append({"o": "upd", "ms": rnd.choice([1, lag // 2, lag, lag * 3, rnd.randrange(0, 2 * lag)]),
                        "p": rnd.choice("HL")})
        elif o == "rst":
            ops.append({"o": "rst"})
        else:
            ops.append({"o": o, "t": now, "n": rnd.choice([1, 1, 2, 5])})
    return {"id": "rnd", "lag": lag, "rl": rnd.choice([0, 1, 3, 10]), "ops": ops}


def run(r):
    drv = vlib.build(["sched"])
    r.model("sched/PollPlanMC", "PollPlanMC2.cfg" if r.thorough else "PollPlanMC1.cfg")
    sc = [scenario(r.rnd, r.rnd.choice([10, 60, 200])) for _ in range(2000 if r.thorough else 250)]
    r.conform(drv["sched"], sc, "sched/PollPlanTrace", "PollPlanTrace.cfg")


vlib.main("P01", run)
