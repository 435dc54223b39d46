"""P11: unsupported registers and read errors."""
import vlib
import clientcheck as cc


def run(r):
    n = 1500 if r.thorough else 150
    sc = cc.scenarios(r, n, "r", unsup=0.8, offline=0.5)
    sc += cc.scenarios(r, n // 2, "e", faults=1.0, kinds=["exc", "exc", "to", "crc"], unsup=0.3, dur=[15, 30])
    sc += cc.scenarios(r, n // 2, "q", fresh=25000000, dur=[60, 90], ndev=[1, 2], maxev=4000, tmos=[1000, 3000], offline=1.0,
                       faults=0.0, unsup=1.0, nowsup=0.7, port=0.0, susp=0.0, pers=[500, 1000, 3000], nregs=[1, 3, 6])
    r.model("line/RangeMC", "RangeMC.cfg")
    r.model("line/RangeMC", "RangeMCbits.cfg")
    if r.thorough:
        r.model("line/RangeMC", "RangeMC2.cfg")
    cc.conform(r, sc)


vlib.main("P11", run)
