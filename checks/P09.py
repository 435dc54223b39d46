"""P09: connection state and backoff."""
import vlib
import clientcheck as cc


def run(r):
    n = 1500 if r.thorough else 150
    sc = cc.scenarios(r, n, "r", offline=0.8)
    sc += cc.scenarios(r, n // 2, "o", offline=1.0, dur=[60, 120], nregs=[1, 3], ndev=[1, 2], maxev=1500)
    sc += cc.scenarios(r, n // 2, "b", faults=1.0, dur=[15, 30], nopol=0.2)
    r.model("line/SerialLineMC", "SerialLineMC2.cfg" if r.thorough else "SerialLineMC.cfg")
    sc += cc.from_model(r, n // 3)
    cc.conform(r, sc)


vlib.main("P09", run)
