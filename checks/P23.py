"""P23: order of versions, topic names, numbers to bytes and back."""
import puregen
import vlib


def run(r):
    drv = vlib.build(["pure"])
    r.model("pure/TextMC", "TextMC2.cfg" if r.thorough else "TextMC.cfg")
    sc = [g(r.rnd, 100) for _ in range(300 if r.thorough else 40) for g in (puregen.texts, puregen.bins)]
    r.conform(drv["pure"], sc, "pure/PureTrace", "PureTrace.cfg")


vlib.main("P23", run)
