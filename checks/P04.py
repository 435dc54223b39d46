"""P04: only genuine answers count."""
import puregen
import vlib
import clientcheck as cc


def run(r):
    n = 1500 if r.thorough else 150
    k = ["crc", "sid", "fn", "cut", "slow", "short", "long", "exc0", "stale", "lost", "exc"]
    sc = cc.scenarios(r, n, "r", faults=1.0, kinds=k, dur=[5, 15])
    sc += cc.scenarios(r, n // 2, "t", faults=1.0, kinds=k, tcp=1.0, dur=[5, 15])
    cc.conform(r, sc)
    # single requests and answers, byte by byte
    r.model("pure/FramesMC", "FramesMC2.cfg" if r.thorough else "FramesMC.cfg")
    drv = vlib.build(["pure"])
    fr = [puregen.frames(r.rnd, 100, t) for _ in range(300 if r.thorough else 24) for t in (False, True)]
    r.conform(drv["pure"], fr, "pure/PureTrace", "PureTrace.cfg")


vlib.main("P04", run)
