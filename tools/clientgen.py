"""Scenarios for the client driver: configuration of devices and registers, and what happens to the line."""
import random

TABS = {0: 3, 1: 4, 2: 1, 3: 2, 4: 3, 5: 3}      # register type -> table
EVTY = {1: 1, 2: 2, 3: 3, 4: 4}                  # table -> event type
FMTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}


def digits(x):
    return [(x >> (16 * k)) & 0xFFFF for k in range(4)]


def words_of(r):
    if r["fmt"].startswith("string"):
        return r["w"] // 8
    return (max(FMTW[r["fmt"]], r.get("off", 0) + r.get("w", 0)) + 15) // 16


def swap(w):
    return (w & 0xFF) << 8 | w >> 8


def wire(ds, n, le, sw):
    x = ds[:n]
    if not le:
        x = x[::-1]
    return [swap(w) for w in x] if sw else x


def flat(sc):
    """Adds what the trace specification needs to know about the configuration."""
    tcp = sc.get("tcp", False)
    sc["tcp"] = tcp
    sc["ep"] = (not tcp) or sc.get("mge", False)
    sc.setdefault("slow", 8000000)
    sc.setdefault("fresh", 0)
    sc.setdefault("rl", 0)
    oc = sc.setdefault("oc", {"fail": 5000, "cyc": 2, "reopen": 5000})
    D, R = [], []
    for di, d in enumerate(sc["devs"]):
        rd = [r for r in d["regs"] if r.get("acc", "rw") != "wo"]
        cread = d.get("cread", False)
        pris = {"per" in r for r in rd}
        setup = []
        for s in d.get("setup", []):
            w = s.get("w", 0)
            n = words_of(s)
            part = w != 0 and w < 16 * n
            x = int(s["x"])
            setup.append({"a": s["a"], "n": n, "part": part, "off": s.get("off", 0), "w": w or 16 * n,
                          "v": digits(x) if part else wire(digits(x), n, s.get("wo") == "little_endian",
                                                           s.get("bo") == "little_endian"),
                          "ty": s["ty"]})
        if not d.get("order", False):
            setup.sort(key=lambda s: (s["ty"], s["a"], s["off"]))
        ev = []
        for r in d["regs"]:
            tab = TABS[r["ty"]]
            n = words_of(r)
            full = 16 * n
            st = {"string": "s", "string8": "s8"}.get(r["fmt"], "")
            acc = r.get("acc", "rw")
            wk = "none"
            if acc != "ro" and r["ty"] not in (1, 3):
                wk = {2: "coil", 4: "single", 5: "multi"}.get(r["ty"], "multi" if n > 1 else "single")
            val = lambda x: digits(x) if x is not None else [-1]
            o = {"d": di + 1, "tab": tab, "a": r["a"], "n": n, "rd": acc != "wo", "wk": wk, "wa": r.get("wa", r["a"]),
                 "off": r.get("off", 0), "w": (r.get("w") or full) if not st else full, "str": st,
                 "le": r.get("wo") == "little_endian", "sw": r.get("bo") == "little_endian",
                 "hi": "per" in r, "per": r.get("per", 0) * 1000, "lim": r.get("lim", 0) * 1000,
                 "sp": r.get("sp", 0), "ety": EVTY[tab], "errv": val(r.get("errv")), "unsv": val(r.get("unsv")),
                 "fwm": False}
            if d.get("wb") and r.get("fw"):
                o["fwm"] = vkey(r["fw"]) > vkey(d.get("slavefw", ""))
            if o["sp"]:
                ev.append([o["ety"], o["a"]])
            R.append(o)
        sponly = all(r.get("sp", 0) == 1 or r.get("acc", "rw") == "wo" for r in d["regs"])
        D.append({"sid": d["sid"], "tmo": d.get("tmo", 3000) * 1000, "cyc": d.get("cyc", 2),
                  "rq": d.get("rqdelay", 0), "hole": d.get("hole", 0), "bithole": d.get("bithole", 0),
                  "maxread": d.get("maxread", 1), "minread": d.get("minread", 1), "minint": d.get("minint", 0) * 1000,
                  "wrfail": d.get("wrfail", 600), "cont": d.get("cont", False) or False, "order": d.get("order", False),
                  "onepri": len(pris) == 1, "rdable": bool(rd), "sponly": sponly, "ev": ev, "setup": setup,
                  "cread": cread})
    sc["D"], sc["R"] = D, R
    for a in sc.get("acts", []):
        if a["a"] == "set" and not a.get("bad"):
            r = R[a["i"]]
            if r["str"]:
                a["xv"] = list(a["x"].encode())
            else:
                a["xv"] = digits(int(a["x"]))
    sc["acts"] = sorted(sc.get("acts", []), key=lambda a: a["t"])
    return sc


def vkey(v):
    return [int(x) if x.isdigit() else 0 for x in v.split(".")] if v else []


class Gen:
    def __init__(self, rnd, **o):
        self.r = rnd
        self.o = o

    def p(self, name, default):
        """probability of a feature"""
        return self.r.random() < self.o.get(name, default)

    def reg(self, a, ty):
        r = self.r
        o = self.o
        x = {"ty": ty, "a": a}
        if ty in (2, 3):
            x["fmt"] = "u8"
            if ty == 3:
                x["acc"] = "ro"
        else:
            k = r.choice(["u16"] * 5 + ["u32", "u32", "u64", "str", "bits", "bits"])
            if ty == 4 and k in ("bits", "str"):
                k = "u16"
            if k == "str":
                x["fmt"] = r.choice(["string", "string8"])
                x["w"] = 8 * r.choice([1, 3, 5])
            elif k == "bits":
                x["fmt"] = r.choice(["u8", "u16", "u32"])
                x["off"] = r.choice([0, 1, 4, 8, 12]) % FMTW[x["fmt"]]
                x["w"] = r.choice([1, 3, 8])
            else:
                x["fmt"] = k
            if ty != 4 and self.p("orders", 0.3):
                x["wo"] = r.choice(["big_endian", "little_endian"])
            if self.p("orders", 0.3) and not x["fmt"].startswith("string"):
                x["bo"] = r.choice(["big_endian", "little_endian"])
            if ty == 1:
                x["acc"] = "ro"
        if ty not in (1, 3):
            x["acc"] = r.choice(["rw"] * 6 + ["ro", "ro", "wo"])
            if "off" in x and x["acc"] == "wo":
                x["acc"] = "rw"
            if x["acc"] == "rw" and "off" not in x and self.p("wa", 0.1):
                x["wa"] = a + 500
        if self.p("per", 0.25) and x.get("acc") != "wo":
            x["per"] = r.choice(o.get("pers", [20, 50, 100, 200, 500, 1000, 3000]))
        elif self.p("lim", 0.2) and x.get("acc") != "wo":
            x["lim"] = r.choice([50, 200, 1000, 5000])
        return x

    def device(self, di, sid):
        r = self.r
        d = {"sid": sid, "regs": [], "slave": {"lat": r.choice([500, 1000, 3000]), "fast": False}}
        d["tmo"] = r.choice(self.o.get("tmos", [0, 500, 1000, 3000, 3000, 10000]) + ([-1] if self.p("nopol", 0.5) else []))
        d["cyc"] = r.choice([0, 1, 2, 2, 5] + ([-1] if self.p("nopol", 0.3) else []))
        d["hole"] = r.choice([0, 0, 1, 3, 10])
        d["bithole"] = r.choice([0, 0, 2, 20])
        d["maxread"] = r.choice([1, 1, 2, 4, 10, 125])
        if self.p("minread", 0.1):
            d["minread"] = r.choice([2, 4])
        if self.p("minint", 0.15):
            d["minint"] = r.choice([50, 300, 1000])
        d["wrfail"] = r.choice([2, 5, 20, 600])
        d["cont"] = self.p("cont", 0.15)
        d["order"] = self.p("order", 0.3)
        d["maxwrite"] = r.choice([1, 2, 4, 10])
        d["frame"] = r.choice([5, 20])
        if self.p("rqdelay", 0.2):
            d["rqdelay"] = r.choice([1000, 20000])
        types = [0, 0, 0, 1, 2, 3, 4, 5]
        a = {}
        n = r.choice(self.o.get("nregs", [1, 3, 6, 10]))
        tys = [r.choice(types) for _ in range(r.choice([1, 2, 3]))]
        for _ in range(n):
            ty = r.choice(tys)
            tab = TABS[ty]
            # the same table is not used through different types at the same address
            at = a.get(tab, r.choice([0, 1, 10, 120, 260]))
            x = self.reg(at, ty)
            if at <= 114 < at + 16 or at <= 250 < at + 16 or at <= 300 < at + 2:
                at = 320
                x = self.reg(at, ty)
            d["regs"].append(x)
            a[tab] = at + words_of(x) + r.choice([0, 0, 0, 0, 1, 2, 4, 15])
            if "off" in x and self.p("fields", 0.5):
                # more fields of the same words
                for _ in range(r.choice([1, 2])):
                    y = dict(x)
                    used = [(z.get("off", 0), z.get("off", 0) + z["w"]) for z in d["regs"]
                            if z["a"] == x["a"] and TABS[z["ty"]] == tab]
                    y["off"] = max(u[1] for u in used)
                    y["w"] = r.choice([1, 2, 4])
                    if y["off"] < FMTW[y["fmt"]] and words_of(y) == words_of(x):
                        y["acc"] = r.choice(["rw", "rw", "ro"]) if ty != 1 else "ro"
                        d["regs"].append(y)
        if self.p("shuffle", 0.3):
            r.shuffle(d["regs"])
        if all(x.get("acc") == "wo" for x in d["regs"]):
            d["regs"][0]["acc"] = "rw"
        if self.p("setup", 0.4):
            d["setup"] = self.setup()
        return d

    def events(self, d):
        """Registers of the device report their changes, in the end"""
        r = self.r
        d["slave"]["fast"] = not self.p("slow_slave", 0.15)
        only = self.p("sponly", 0.25)
        for x in d["regs"]:
            if x.get("acc") != "wo" and "off" not in x and not x["fmt"].startswith("string") and x.get("wo", "big_endian") == "big_endian" \
                    and x.get("bo", "big_endian") == "big_endian":
                x["sp"] = 1 if only else r.choice([0, 1, 1, 1, 2, 2])
        if self.p("evtwin", 0.25):
            # channels of one register that differ in what they do with events
            for x in [x for x in d["regs"] if x.get("sp")]:
                if r.random() < 0.5:
                    y = dict(x)
                    y["sp"] = 3 - x["sp"]
                    d["regs"].insert(d["regs"].index(x) + r.choice([0, 1]), y)
        if self.p("canev", 0.3):
            ok = [x for x in d["regs"] if x.get("sp") and r.random() < 0.7]
            d["slave"]["canev"] = [[EVTY[TABS[x["ty"]]], x["a"]] for x in ok]

    def event_acts(self, sc, acts, dur):
        r = self.r
        for k, d in enumerate(sc["devs"]):
            evr = [x for x in d["regs"] if x.get("sp")]
            if not d["slave"].get("fast"):
                continue
            for _ in range(r.choice([0, 5, 20, 60])):
                t = r.randrange(500000, dur)
                for _ in range(r.choice([1, 1, 2, 5, 25])):
                    if evr and r.random() < 0.95:
                        x = r.choice(evr)
                        tab, ad, n = TABS[x["ty"]], x["a"], words_of(x)
                    else:
                        x = None
                        tab, ad, n = r.choice([1, 2, 3, 4]), r.choice([5, 700, 65535]), 1
                    vs = [r.randrange(2) if tab < 3 else r.choice([0, 1, 255, 256, 65535, r.randrange(65536)]) for _ in range(n)]
                    acts.append({"t": t, "a": "event", "d": k, "ty": EVTY[tab], "ad": ad, "vs": vs, "force": x is None})
                    t += r.choice([0, 0, 1000, 50000])
            if self.p("reboot", 0.3):
                for _ in range(r.choice([1, 2])):
                    acts.append({"t": r.randrange(2000000, dur), "a": "reboot", "d": k})
        if self.p("evfaults", 0.5):
            for _ in range(r.choice([1, 3, 10])):
                acts.append({"t": r.randrange(0, dur), "a": "evfault", "n": r.choice([1, 1, 2, 4, 12]),
                             "kind": r.choice(["to", "lost", "crc", "to", "lost", "crc", "mix"])})

    def setup(self):
        r = self.r
        res, a = [], 1000
        for k in range(r.choice([1, 2, 4, 8])):
            ty = r.choice([0, 0, 0, 4, 5] + [2] * (1 if self.p("setupcoil", 0.3) else 0))
            s = {"n": "s%d" % k, "ty": ty, "a": a}
            if ty == 2:
                s["fmt"] = "u8"
                s["x"] = str(r.choice([0, 1]))
            else:
                f = r.choice(["u16", "u16", "u16", "u32"]) if ty != 4 else "u16"
                s["fmt"] = f
                s["x"] = str(r.randrange(1, 1 << FMTW[f]))
                if f == "u16" and self.p("setupbits", 0.3):
                    s["off"] = r.choice([0, 2, 7])
                    s["w"] = r.choice([1, 4])
                    s["x"] = str(r.randrange(0, 1 << s["w"]))
                elif self.p("orders", 0.2) and ty != 4:
                    s["wo"] = r.choice(["big_endian", "little_endian"])
            res.append(s)
            a += words_of(s) + r.choice([0, 0, 0, 1, 5])
        if r.random() < 0.5:
            r.shuffle(res)
        return res

    def text(self, x):
        r = self.r
        if x["fmt"].startswith("string"):
            n = x["w"] // 8 * (2 if x["fmt"] == "string8" else 1)
            s, m = "", r.choice([n, n, r.randrange(0, n + 1)])
            while True:
                c = r.choice("abcXYZ019" * 3 + "\u00a9\u044f")
                if len((s + c).encode()) > m:
                    return s
                s += c
        w = x.get("w") or FMTW[x["fmt"]]
        if x["ty"] == 2:
            w = 1
        return str(r.choice([0, 1, (1 << w) - 1, r.randrange(1 << w), r.randrange(1 << w)]) & ((1 << w) - 1))

    def scenario(self):
        r = self.r
        o = self.o
        sc = {"id": o.get("id", "rnd"), "devs": [], "acts": []}
        sc["tcp"] = self.p("tcp", 0.15)
        sc["fresh"] = o.get("fresh", 0)
        if "slow" in o:
            sc["slow"] = o["slow"]
        sc["rl"] = r.choice(o.get("rl", [0, 0, 0, 1, 2, 5, 20, 100]))
        sc["oc"] = r.choice([{"fail": 5000, "cyc": 2, "reopen": 5000}, {"fail": 1000, "cyc": 3, "reopen": 1000},
                             {"fail": -1, "cyc": -1, "reopen": 3000}, {"fail": 0, "cyc": 1, "reopen": 2000}])
        nd = r.choice(o.get("ndev", [1, 1, 2, 3]))
        for k, sid in enumerate(r.sample(range(1, 248), nd)):
            sc["devs"].append(self.device(k, sid))
            if self.p("ev", 0.0):
                self.events(sc["devs"][-1])
        dur = r.choice(o.get("dur", [5, 15, 30])) * 1000000
        sc["dur"] = dur
        sc["maxev"] = o.get("maxev", 900)
        flatregs = [(di, x) for di, d in enumerate(sc["devs"]) for x in d["regs"]]
        acts = sc["acts"]
        writable = [i for i, (di, x) in enumerate(flatregs) if x.get("acc", "rw") != "ro"]
        lo = o.get("setfrom", 3000000)
        if o.get("ev"):
            sc["mge"] = self.p("mge", 0.7)
            sc["arbff"] = 0 if sc["tcp"] else r.choice([0, 0, 3, 12])
            sc["minresp"] = 0
            self.event_acts(sc, acts, dur)
        if writable and self.p("sets", 0.6):
            hot = r.choice(writable)
            for _ in range(r.choice([1, 4, 12])):
                i = r.choice(writable) if r.random() < 0.5 else hot
                acts.append({"t": r.randrange(lo, max(lo + 1, dur - 1000000)), "a": "set", "i": i,
                             "x": self.text(flatregs[i][1])})
        if writable and self.p("burst", 0.0):
            # values set one right after another, some while the write of the one before is on the line
            for _ in range(r.choice([2, 5, 10])):
                t = r.randrange(lo, max(lo + 1, dur - 2000000))
                i = r.choice(writable)
                di, x = flatregs[i]
                same = [k for k in writable if flatregs[k][0] == di and flatregs[k][1]["a"] == x["a"]
                        and TABS[flatregs[k][1]["ty"]] == TABS[x["ty"]]]
                if self.p("wrfault", 0.0):
                    kd = r.choice(["exc", "exc", "to", "lost", "crc"])
                    acts.append({"t": t, "a": "fault", "d": di, "n": 1, "kind": kd, "wr": True,
                                 "c": r.choice([1, 2, 3, 3, 4, 6]) if kd == "exc" else 50})
                for _ in range(r.choice([2, 2, 3, 6])):
                    if r.random() < 0.2 and not flatregs[i][1]["fmt"].startswith("string"):
                        acts.append({"t": t + r.choice([0, 1, r.randrange(20000)]), "a": "set", "i": i,
                                     "x": r.choice(["oops", "", "1 2", "0x"]), "bad": True})
                    acts.append({"t": t, "a": "set", "i": i, "x": self.text(flatregs[i][1])})
                    t += r.choice([0, 1, r.randrange(10000), r.randrange(50000), r.randrange(300000)])
                    i = r.choice(same)
        for k in range(nd):
            if self.p("faults", 0.5):
                kinds = o.get("kinds", ["to", "to", "lost", "exc", "exc", "crc", "sid", "fn", "cut", "slow", "short", "long"])
                for _ in range(r.choice([1, 3, 8])):
                    kd = r.choice(kinds)
                    acts.append({"t": r.randrange(0, dur), "a": "fault", "d": k, "n": r.choice([1, 1, 2, 3, 6]), "kind": kd,
                                 "c": r.choice([1, 2, 3, 4, 5, 6, 8, 10]) if kd == "exc" else r.choice([50, 400, 700])})
            if self.p("offline", 0.35):
                t = r.randrange(0, dur)
                for _ in range(r.choice([1, 2])):
                    acts.append({"t": t, "a": "off", "d": k})
                    t += r.randrange(100000, 20000000)
                    acts.append({"t": t, "a": "on", "d": k})
                    if self.p("onfault", 0.0):
                        # the first reads of some registers after the connection fail
                        for x in r.sample(sc["devs"][k]["regs"], min(2, len(sc["devs"][k]["regs"]))):
                            acts.append({"t": t, "a": "fault", "d": k, "n": r.choice([1, 2, 3, 30]), "ad": x["a"],
                                         "kind": r.choice(["to", "lost", "crc", "exc"]), "c": r.choice([4, 5, 6])})
                        if o.get("ev") and r.random() < 0.6:
                            # so do the requests that switch events on
                            acts.append({"t": t + r.choice([0, 500000, 2000000, 4000000]), "a": "fault", "d": k, "ad": 100000,
                                         "n": r.choice([1, 3, 100]), "kind": r.choice(["to", "to", "lost", "crc", "exc"]),
                                         "c": 50})
                    t += r.randrange(100000, 10000000)
            if self.p("mem", 0.8):
                for _ in range(8):
                    x = r.choice(sc["devs"][k]["regs"])
                    tab = TABS[x["ty"]]
                    acts.append({"t": r.randrange(0, dur), "a": "mem", "d": k, "tab": tab,
                                 "ad": x["a"] + r.randrange(words_of(x)),
                                 "v": r.randrange(2) if tab < 3 else r.randrange(65536)})
            if self.p("unsup", 0.3):
                for _ in range(r.choice([1, 2])):
                    x = r.choice(sc["devs"][k]["regs"])
                    sc["devs"][k]["slave"].setdefault("unsup", []).append([TABS[x["ty"]], x["a"]])
                    if self.p("nowsup", 0.3):
                        # the device comes back with a firmware that has it
                        offs = [a["t"] for a in acts if a["a"] == "off" and a["d"] == k]
                        if offs:
                            acts.append({"t": r.choice(offs), "a": "unsup", "d": k, "tab": TABS[x["ty"]], "ad": x["a"], "v": False})
            if self.p("wrunsup", 0.15):
                x = r.choice(sc["devs"][k]["regs"])
                sc["devs"][k]["slave"].setdefault("wrunsup", []).append([TABS[x["ty"]], x.get("wa", x["a"])])
        if self.p("port", 0.15):
            t = r.randrange(0, dur)
            acts.append({"t": t, "a": "failopen", "v": True})
            for k in range(nd):
                acts.append({"t": t, "a": "off", "d": k})
            t += r.randrange(1000000, 30000000)
            acts.append({"t": t, "a": "failopen", "v": False})
            for k in range(nd):
                acts.append({"t": t, "a": "on", "d": k})
        if self.p("susp", 0.12):
            t = r.randrange(500000, dur)
            k = r.randrange(nd)
            acts.append({"t": t, "a": "susp", "d": k})
            if r.random() < 0.7:
                acts.append({"t": t + r.randrange(100000, 20000000), "a": "res", "d": k})
        return flat(sc)
