"""P19: conditions of device templates: which texts are conditions, what they mean, what they depend on."""
import puregen
import vlib


def run(r):
    drv = vlib.build(["pure"])
    r.model("pure/ExprMC", "ExprMC2.cfg" if r.thorough else "ExprMC.cfg")
    sc = [puregen.exprs(r.rnd, 100) for _ in range(400 if r.thorough else 60)]
    r.conform(drv["pure"], sc, "pure/PureTrace", "PureTrace.cfg")


vlib.main("P19", run)
