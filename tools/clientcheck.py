"""Checks of the properties of the serial client: random scenarios run by the real client on a simulated line, the
traces checked against the specification ClientTrace; scenarios taken from behaviours of the models."""
import json

import vlib
import clientgen


def scenarios(r, n, tag, **opts):
    return [dict(clientgen.Gen(r.rnd, **opts).scenario(), id="%s%d" % (tag, i)) for i in range(n)]


def from_model(r, n, susp=True, depth=150, setup=0.7, **opts):
    """What happens around the line is taken from behaviours of SerialLineMC; the devices are random."""
    res = []
    for i, b in enumerate(vlib.simulate("line/SerialLineSim", "SerialLineSim.cfg", n, depth, r.rnd.randrange(1 << 30))[:n]):
        unit = r.rnd.choice([200, 500, 1000])
        g = clientgen.Gen(r.rnd, ndev=[2], faults=0.0, offline=0.0, port=0.0, susp=0.0, nopol=0.0, setup=setup, **opts)
        sc = g.scenario()
        for d in sc["devs"]:
            d["tmo"], d["cyc"] = 3 * unit, 2
        sc["oc"] = {"fail": 4 * unit, "cyc": 3, "reopen": 2 * unit}
        sc["dur"] = max(b["clk"] * unit * 1000, 3000000) + 1000000
        acts = [a for a in sc["acts"] if a["t"] < sc["dur"]]
        for e in b["log"]:
            t = e["t"] * unit * 1000 + r.rnd.randrange(unit * 1000)
            d = e["d"] - 1
            if e["a"] in ("on", "off"):
                acts.append({"t": t, "a": e["a"], "d": d})
            elif e["a"] in ("susp", "res"):
                if susp:
                    acts.append({"t": t, "a": e["a"], "d": d})
            elif e["a"] == "fault":
                acts.append({"t": t, "a": "fault", "d": d, "n": 1, "kind": r.rnd.choice(["to", "lost", "crc", "fn"]), "c": 0})
            else:
                acts.append({"t": t, "a": "failopen", "v": e["a"] == "openfail"})
        sc["acts"] = acts
        res.append(dict(clientgen.flat(sc), id="m%d" % i))
    return res


def kf_base(i, regs, acts):
    sc = {"id": i, "devs": [{"sid": 7, "regs": regs, "slave": {"lat": 1000, "fast": False}, "tmo": 3000, "cyc": 2,
                             "maxwrite": 10, "frame": 5}], "acts": acts, "dur": 5000000, "maxev": 500, "strict": True}
    return clientgen.flat(sc)


def known_scenarios(prop):
    """Histories on which the code is known to break a property (known_findings.json)."""
    if prop == "P07":
        f = {"ty": 0, "a": 10, "fmt": "u16", "off": 4, "w": 4}
        return [kf_base("kf-bitfield-unread", [f], [{"t": 0, "a": "mem", "d": 0, "tab": 3, "ad": 10, "v": 0x1234},
                                                    {"t": 0, "a": "set", "i": 0, "x": "5"}])]
    if prop == "P08":
        f = {"ty": 0, "a": 10, "fmt": "string", "w": 40}
        return [kf_base("kf-short-string", [f], [{"t": 100000, "a": "set", "i": 0, "x": "ab"}])]
    return []


def key(scn, ev):
    """A rejection is a known one only if it is the write the finding is about."""
    try:
        e = json.loads(ev)
    except ValueError:
        return None
    if scn["id"].startswith("kf-") and e.get("o") in ("req", "rq", "tx", "x") and e.get("f") in (5, 6, 15, 16):
        return scn["id"]
    return None


def conform(r, sc, **kw):
    drv = vlib.build(["client"])
    sc = known_scenarios(r.prop) + sc
    r.conform(drv["client"], sc, "line/ClientTrace", "ClientTrace.cfg", tenv={"PROP": r.prop}, key=key, timeout=kw.pop("timeout", 400), **kw)
