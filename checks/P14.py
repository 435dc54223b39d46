"""P14: opening and closing of the port."""
import vlib
import clientcheck as cc


def run(r):
    n = 1500 if r.thorough else 150
    sc = cc.scenarios(r, n, "r", offline=0.9, port=0.4, dur=[30, 60])
    sc += cc.scenarios(r, n // 2, "o", offline=1.0, port=0.7, ndev=[1], nregs=[1, 3], dur=[60, 120])
    r.model("line/SerialLineMC", "SerialLineMC2.cfg" if r.thorough else "SerialLineMC.cfg")
    sc += cc.from_model(r, n // 3)
    cc.conform(r, sc)


vlib.main("P14", run)
