"""P03: periods of reading."""
import vlib
import clientcheck as cc


def run(r):
    n = 1200 if r.thorough else 100
    sc = cc.scenarios(r, n, "r", per=0.4, lim=0.4, minint=0.3)
    sc += cc.scenarios(r, n, "f", fresh=25000000, dur=[60, 90], rl=[0, 0, 20, 100], nregs=[1, 3, 6], ndev=[2, 3], maxev=4000,
                       per=0.2, tmos=[1000, 3000, 5000], port=0.05, unsup=0.5, kinds=["to", "slow", "exc", "exc", "crc"])
    sc += cc.scenarios(r, n // 2, "e", ev=1.0, fresh=25000000, dur=[60, 90], nregs=[1, 3, 6], ndev=[1, 2], maxev=4000, per=0.1,
                       pers=[1000], tmos=[1000, 3000], offline=0.8, faults=0.0, onfault=0.9, unsup=0.0, port=0.0, susp=0.0)
    r.model("sched/PollPlanMC", "PollPlanMC2.cfg" if r.thorough else "PollPlanMC1.cfg")
    cc.conform(r, sc)


vlib.main("P03", run)
