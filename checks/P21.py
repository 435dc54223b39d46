"""P21: ports, devices and topics that could be taken for one another are refused, and only those."""
import cfggen
import vlib


def run(r):
    drv = vlib.build(["config"])
    r.model("config/ConfigMC", "ConfigMC2.cfg" if r.thorough else "ConfigMC.cfg")
    g = cfggen.Gen(r.rnd)
    sc = [cfggen.scenario("r%d" % i, *g.clashes()) for i in range(20000 if r.thorough else 3000)]
    r.conform(drv["config"], sc, "config/ConfigTrace", "ConfigTrace.cfg", args=[vlib.REPO], tenv={"PROP": "P21"})


vlib.main("P21", run)
