"""P24: suspending of polling."""
import vlib
import clientcheck as cc


def run(r):
    n = 1500 if r.thorough else 150
    sc = cc.scenarios(r, n, "r", susp=1.0, offline=0.6, dur=[15, 30])
    sc += cc.scenarios(r, n // 4, "l", susp=1.0, offline=0.4, ndev=[1, 2], nregs=[1], per=1.0, dur=[700], maxev=3000)
    sc += cc.scenarios(r, n // 2, "q", susp=1.0, fresh=25000000, dur=[60, 90], ndev=[1, 2], maxev=4000, tmos=[1000, 3000],
                       offline=0.3, faults=0.0, port=0.0, per=0.5, pers=[500, 1000, 3000], nregs=[3, 6])
    r.model("line/SerialLineMC", "SerialLineMC2.cfg" if r.thorough else "SerialLineMC3.cfg")
    sc += cc.from_model(r, n // 3)
    cc.conform(r, sc)


vlib.main("P24", run)
