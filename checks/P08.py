"""P08: delivery of written values."""
import vlib
import clientcheck as cc


def run(r):
    n = 1500 if r.thorough else 150
    sc = cc.scenarios(r, n, "r", sets=1.0, orders=0.5)
    sc += cc.scenarios(r, n // 2, "o", sets=1.0, offline=0.9, dur=[30, 60])
    sc += cc.scenarios(r, n // 2, "w", sets=1.0, wrunsup=0.6, faults=0.8, orders=0.5)
    clean = dict(sets=0.3, burst=1.0, faults=0.0, offline=0.0, port=0.0, susp=0.0, unsup=0.0, nopol=0.1)
    sc += cc.scenarios(r, n // 2, "b", slow=2000000, tmos=[1000, 3000], **clean)
    sc += cc.scenarios(r, n // 4, "c", wrfault=0.5, wrunsup=0.2, **clean)
    r.model("line/WriteQueueMC", "WriteQueueMC2.cfg" if r.thorough else "WriteQueueMC.cfg")
    sc += cc.from_model(r, n // 4, sets=1.0)
    cc.conform(r, sc)


vlib.main("P08", run)
