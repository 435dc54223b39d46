"""P10: setup items."""
import vlib
import clientcheck as cc


def run(r):
    n = 1500 if r.thorough else 150
    sc = cc.scenarios(r, n, "r", setup=1.0, offline=0.8, setupbits=0.5)
    sc += cc.scenarios(r, n // 2, "f", setup=1.0, faults=1.0, dur=[5], setupbits=0.6, order=0.5)
    r.model("line/SerialLineMC", "SerialLineMC2.cfg" if r.thorough else "SerialLineMC.cfg")
    sc += cc.from_model(r, n // 3)
    cc.conform(r, sc)


vlib.main("P10", run)
