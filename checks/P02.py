"""P02: the read rate limit."""
import vlib
import clientcheck as cc


def run(r):
    n = 1200 if r.thorough else 120
    sc = cc.scenarios(r, n, "r", rl=[1, 2, 3, 5, 20, 0], per=0.4, dur=[5, 15], nregs=[3, 6, 10, 20], maxev=700)
    sc += cc.scenarios(r, n // 3, "f", rl=[1, 5, 20], faults=1.0, offline=0.5, sets=0.2)
    r.model("sched/PollPlanMC", "PollPlanMC2.cfg" if r.thorough else "PollPlanMC1.cfg")
    cc.conform(r, sc)


vlib.main("P02", run)
