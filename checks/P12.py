"""P12: no event is lost."""
import vlib
import clientcheck as cc


def run(r):
    n = 1200 if r.thorough else 120
    ev = dict(ev=1.0, nregs=[1, 3, 6, 10], pers=[100, 500, 1000], unsup=0.1, orders=0.1)
    sc = cc.scenarios(r, n, "c", faults=0.0, offline=0.0, port=0.0, susp=0.0, evfaults=0.0, **ev)
    sc += cc.scenarios(r, n, "f", faults=0.1, offline=0.1, port=0.0, susp=0.0, evfaults=1.0, **ev)
    sc += cc.scenarios(r, n, "r", **ev)
    r.model("line/EventsMC", "EventsMC2.cfg" if r.thorough else "EventsMC.cfg")
    cc.conform(r, sc)


vlib.main("P12", run)
