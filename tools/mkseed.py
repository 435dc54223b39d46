"""Makes /verif/seeded/<id> from a description: python3 tools/mkseed.py FILE...
A description is a Python file defining ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS and, between the lines
#DEMO and #END, the text of demo.py. The patch is made in a scratch copy, built, tested and demonstrated there."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(fn):
    text = open(fn).read()
    ns = {}
    exec(text, ns)
    out = os.path.join(V, "seeded", ns["ID"])
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    demo = text.split("#DEMO\n")[1].split("#END")[0]
    demo = "\n".join(l[2:] if l.startswith("# ") else l.lstrip("#") for l in demo.split("\n"))
    open(os.path.join(out, "demo.py"), "w").write(demo)
    if "import demorun" in demo:
        shutil.copy(os.path.join(V, "tools/seedlib/demorun.py"), out)
        shutil.copy(os.path.join(V, "tools/clientgen.py"), out)
        shutil.copytree(os.path.join(V, "harness"), os.path.join(out, "h/harness"))
        shutil.copytree(os.path.join(V, "stubs"), os.path.join(out, "h/stubs"))
        for f in os.listdir(os.path.join(out, "h/harness")):
            if f.startswith("drv_") and f != "drv_%s.cpp" % ns.get("DRV", "client"):
                os.unlink(os.path.join(out, "h/harness", f))
    for k, v in ns.get("FILES", {}).items():
        open(os.path.join(out, k), "w").write(v)
    shutil.copy(os.path.join(V, "tools/seedlib/demo.sh"), out)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    with tempfile.TemporaryDirectory(dir="/tmp") as t:
        wt = t + "/repo"
        sh("cp -a /repo %s" % wt)
        for f, a, b in ns["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        d = sh("git diff", wt).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        # the build works in /repo only: compile what the patch touches by hand
        srcs = [f for f, _, _ in ns["EDITS"] if f.endswith(".cpp")]
        for f in srcs:
            r = sh("g++ -std=c++20 -fsyntax-only -w -Isrc -I%s/stubs %s" % (V, f), wt)
            assert r.returncode == 0, r.stdout[-2000:]
        r1 = sh("bash %s/demo.sh" % out, wt)
        r0 = sh("bash %s/demo.sh" % out, "/repo") if "-q" not in sys.argv else None
        print(ns["ID"], "with patch:", r1.returncode, r1.stdout[-200:].strip())
        if r0:
            print(ns["ID"], "unchanged:", r0.returncode, r0.stdout[-200:].strip())
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)


for f in sys.argv[1:]:
    if f != "-q":
        main(f)
