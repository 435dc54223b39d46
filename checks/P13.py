"""P13: a register is polled unless its events are enabled."""
import vlib
import clientcheck as cc

# the events of a register are switched on, it is still queued at the disconnection, then they cannot be switched on
KEPT = dict(id="kept", tcp=False, fresh=10000000, rl=0, oc={"fail": -1, "cyc": -1, "reopen": 3000}, dur=30000000,
            maxev=40000, mge=True, arbff=0, minresp=0,
            devs=[dict(sid=5, tmo=1000, cyc=1, frame=20, hole=0, maxread=10, maxwrite=2, bithole=2, cont=False, wrfail=600,
                       order=True, setup=[dict(a=60, ty=0, fmt="u16", x="5")], slave={"fast": True, "lat": 500},
                       regs=[{"a": 1, "ty": 0, "fmt": "u16", "lim": 200, "acc": "ro"},
                             {"a": 200, "ty": 0, "fmt": "u16", "lim": 200, "sp": 1, "acc": "ro"}])],
            acts=[{"t": 2000000, "a": "fault", "d": 0, "n": 12, "kind": "crc", "ad": 1, "c": 50},
                  {"t": 2000000, "a": "fault", "d": 0, "n": 500, "kind": "crc", "ad": 200, "c": 50},
                  {"t": 3600000, "a": "fault", "d": 0, "n": 600, "kind": "to", "ad": 100000, "c": 50}])


def run(r):
    n = 1200 if r.thorough else 120
    ev = dict(ev=1.0, nregs=[1, 3, 6, 10], pers=[100, 500, 1000], unsup=0.1)
    sc = [cc.clientgen.flat(dict(KEPT))]
    sc += cc.scenarios(r, n, "c", faults=0.0, offline=0.3, port=0.0, susp=0.0, evfaults=0.0, **ev)
    sc += cc.scenarios(r, n, "o", faults=0.0, offline=0.9, port=0.0, susp=0.0, onfault=0.9, **ev)
    sc += cc.scenarios(r, n // 2, "q", fresh=25000000, dur=[60, 90], ndev=[1, 2], maxev=4000, per=0.1, tmos=[1000, 3000],
                       offline=0.8, faults=0.0, onfault=0.9, port=0.0, susp=0.0, **dict(ev, pers=[1000], nregs=[1, 3, 6]))
    sc += cc.scenarios(r, n, "r", orders=0.1, **ev)
    r.model("line/EventsMC", "EventsMC2.cfg" if r.thorough else "EventsMC.cfg")
    cc.conform(r, sc)


vlib.main("P13", run)
