"""P20: what comes out of a template, the user's settings and the conditions: merging, parameters, subdevices, refusals."""
import json
import cfggen
import vlib


def run(r):
    drv = vlib.build(["config"])
    r.model("config/ConfigMC", "ConfigMC2.cfg" if r.thorough else "ConfigMC.cfg")
    g = cfggen.Gen(r.rnd)
    sc = [cfggen.scenario("r%d" % i, *g.config()) for i in range(12000 if r.thorough else 1400)]
    r.conform(drv["config"], sc, "config/ConfigTrace", "ConfigTrace.cfg", args=[vlib.REPO], tenv={"PROP": "P20"})
    # the templates that come with the program
    ts = cfggen.shipped(vlib.REPO)
    if not r.thorough:
        # (the largest ones take a minute each)
        ts = r.rnd.sample([x for x in ts if len(json.dumps(x[1])) < 150000], 60)
    sc = [cfggen.scenario("s%d-%s" % (i, f), {f: t}, cfggen.shipped_config(g, t)) for f, t in ts for i in range(3 if r.thorough else 1)]
    r.rnd.shuffle(sc)
    r.conform(drv["config"], sc, "config/ConfigTrace", "ConfigTrace.cfg", args=[vlib.REPO], tenv={"PROP": "P20"},
              timeout=3000 if r.thorough else 600)


vlib.main("P20", run)
