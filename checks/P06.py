"""P06: raw register values and their texts."""
import puregen
import vlib


def run(r):
    drv = vlib.build(["pure"])
    r.model("pure/CodecMC", "CodecMC2.cfg" if r.thorough else "CodecMC.cfg")
    sc = [puregen.codecs(r.rnd, 100) for _ in range(600 if r.thorough else 60)]
    r.conform(drv["pure"], sc, "pure/PureTrace", "PureTrace.cfg")


vlib.main("P06", run)
