"""P07: writing fields of words keeps the other bits."""
import vlib
import clientcheck as cc


def run(r):
    n = 1500 if r.thorough else 150
    sc = cc.scenarios(r, n, "r", fields=1.0, bits=0.8, sets=1.0, mem=1.0)
    sc += cc.scenarios(r, n // 2, "q", fields=1.0, bits=0.8, sets=1.0, mem=1.0, faults=0.1, offline=0.1, dur=[15, 30])
    sc += cc.scenarios(r, n // 2, "b", fields=1.0, bits=0.8, sets=0.0, burst=1.0, wrfault=0.6, mem=0.5, faults=0.0, offline=0.0,
                       per=0.8, pers=[1000, 3000, 10000], orders=0.5)
    r.model("line/ValuesMC", "ValuesMC2.cfg" if r.thorough else "ValuesMC.cfg")
    cc.conform(r, sc)


vlib.main("P07", run)
