"""Builds the driver from the repository in the current directory and runs scenarios; used by demo.py beside it."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def run(driver, scenarios, judge, args=()):
    """judge(list of events of one scenario, scenario) -> text of what is wrong or None"""
    with tempfile.TemporaryDirectory() as t:
        mk = ["make", "-s", "-k", "-f", os.path.join(HERE, "h/harness/Makefile"), "REPO=" + os.getcwd(), "B=" + t, "-j8"]
        subprocess.run(mk + ["objs"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(mk + ["lib"], check=True)
        subprocess.run(mk + ["%s/drv/%s" % (t, driver)], check=True)
        sf, tf = os.path.join(t, "s"), os.path.join(t, "t")
        with open(sf, "w") as f:
            for s in scenarios:
                f.write(json.dumps(s) + "\n")
        p = subprocess.run(["%s/drv/%s" % (t, driver), sf, tf] + list(args), cwd=t, timeout=120)
        if p.returncode != 0:
            print("driver ended with", p.returncode)
            sys.exit(1)
        n, cur = -1, []
        per = []
        with open(tf, errors="replace") as f:
            for l in f:
                e = json.loads(l)
                if e["o"] == "start":
                    per.append([])
                per[-1].append(e)
        bad = 0
        for s, ev in zip(scenarios, per):
            w = judge(ev, s)
            if w:
                print("BROKEN:", w)
                bad = 1
        print("ok" if not bad else "failed")
        sys.exit(bad)
