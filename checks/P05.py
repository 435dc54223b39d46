"""P05: ranges of registers, every register gets its own words."""
import vlib
import clientcheck as cc


def run(r):
    n = 1500 if r.thorough else 150
    sc = cc.scenarios(r, n, "r", nregs=[6, 10, 20], shuffle=0.5, fields=0.7, mem=1.0, orders=0.5, unsup=0.4)
    sc += cc.scenarios(r, n // 2, "q", nregs=[6, 10, 20], faults=0.1, offline=0.1, mem=1.0, orders=0.5, dur=[15, 30])
    r.model("line/RangeMC", "RangeMC.cfg")
    r.model("line/RangeMC", "RangeMCbits.cfg")
    if r.thorough:
        r.model("line/RangeMC", "RangeMC2.cfg")
    cc.conform(r, sc)


vlib.main("P05", run)
