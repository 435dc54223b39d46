"""P18: topics show what the device says: values, errors, publishing policy, counters, the user's messages."""
import cfggen
import vlib


def run(r):
    drv = vlib.build(["config"])
    for m in ("MqttMC.cfg", "MqttMC2.cfg", "MqttMC3.cfg", "MqttMC4.cfg", "MqttMC5.cfg"):
        r.model("config/MqttMC", m)
    n = 6 if r.thorough else 1
    for opts in ({}, {"dead": 0.8, "counters": 0.5, "mui": [-1, 0, 5]}, {"several": 0.5, "sets": 1, "dead": 0.1, "faults": 0.6}):
        g = cfggen.Mqtt(r.rnd, **opts)
        sc = [g.scenario("m%d" % i) for i in range(250 * n)]
        r.conform(drv["config"], sc, "config/MqttTrace", "MqttTrace.cfg", args=[vlib.REPO], tenv={"PROP": "P18"})


vlib.main("P18", run)
