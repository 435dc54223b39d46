"""Scenarios of RPC calls: requests for the real handlers, and what they mean for the specification (spec/rpc)."""
import json

TABN = {3: "holding", 4: "input", 1: "coil", 2: "discrete"}
FMT = {"u16": 1, "s16": 1, "u32": 2, "s32": 2}


def words(fmt, n, wo):
    if fmt in ("u32", "s32"):
        n &= 0xFFFFFFFF
        w = [n >> 16, n & 0xFFFF]
        return w[::-1] if wo else w
    return [n & 0xFFFF]


def text(n, e):
    """n * 10^-e without zeros at the end"""
    s = "-" if n < 0 else ""
    d = str(abs(n)).rjust(e + 1, "0")
    if e == 0:
        return s + d
    i, f = d[:-e], d[-e:].rstrip("0")
    return s + i + ("." + f if f else "")


class Gen:
    def __init__(self, rnd, **o):
        self.r = rnd
        self.o = o

    def p(self, name, x):
        return self.r.random() < self.o.get(name, x)

    # ---- templates
    def number(self, fmt):
        r = self.r
        return {"u16": lambda: r.choice([0, 1, 2, 3, 10, 99, 1000, 32768, 65535, r.randrange(65536)]),
                "s16": lambda: r.choice([0, 1, -1, 5, -32768, 32767, -300]),
                "u32": lambda: r.choice([0, 1, 65536, 100000, 2147483647, 70000]),
                "s32": lambda: r.choice([0, -1, 65536, -65537, 2147483647, -12345678])}[fmt]()

    def register(self, a, o, j, tabs=(3, 3, 3, 4)):
        """a place for a value at address a: abstract o, JSON j"""
        r = self.r
        tab = r.choice(tabs)
        o["tab"] = tab
        o["a"] = a
        j["reg_type"] = TABN[tab]
        j["address"] = a
        o.update({"fmt": "u16", "n": 1, "wo": 0, "e": 0, "m": 1, "off": 0})
        if tab < 3:
            return
        if self.p("strings", 0.12):
            o["fmt"] = "string"
            o["n"] = r.choice([1, 3, 5])
            j["format"] = "string"
            j["string_data_size"] = o["n"]
            return
        o["fmt"] = r.choice(["u16", "u16", "s16", "u32", "s32"])
        o["n"] = FMT[o["fmt"]]
        if o["fmt"] != "u16" or self.p("fmt", 0.2):
            j["format"] = o["fmt"]
        if o["n"] > 1 and self.p("wo", 0.3):
            o["wo"] = 1
            j["word_order"] = "little_endian"
        if self.p("scale", 0.3):
            o["e"], o["m"] = r.choice([(1, 1), (2, 1), (1, 5), (0, 2)])
            j["scale"] = o["m"] / 10 ** o["e"] if o["e"] else o["m"]
        if self.p("offset", 0.15):
            o["off"] = r.choice([1, -3, 20])
            j["offset"] = o["off"]

    def template(self, name):
        r = self.r
        t = {"name": name, "par": [], "ch": [], "wb": False, "sig": "", "minfw": "", "rt": 0}
        wb = t["wb"] = self.p("wb", 0.4)
        dev = {"name": name, "id": name, "channels": []}
        a = 300
        pars = {}
        arr = []
        ids = ["p%d" % i for i in range(r.choice([0, 1, 2, 4, 7]) if self.p("few", 1) else 8)]
        for i in ids:
            twice = len(ids) > 1 and self.p("twice", 0.15)
            ctl = r.choice([x for x in ids if x != i] or ids)
            for k in range(2 if twice else 1):
                o = {"id": i, "cond": [], "ro": False, "en": True, "fw": "", "wr": True, "chk": wb, "shown": True}
                j = {"title": "T " + i}
                if k:
                    # (declarations of one parameter share the place)
                    o.update({x: first[0][x] for x in ("tab", "a", "fmt", "n", "wo", "e", "m", "off", "fw")})
                    j.update({x: first[1][x] for x in first[1] if x not in ("enum", "min", "max", "condition", "readonly")})
                    if "readonly" in first[1]:
                        j["readonly"] = True
                else:
                    a += r.choice([0, 0, 0, 1, 4, 40])
                    self.register(a, o, j)
                    a += o["n"]
                    first = (o, j)
                if o["tab"] == 4 or o["tab"] == 2:
                    j["readonly"] = True
                    o["ro"] = True
                elif self.p("readonly", 0.1):
                    j["readonly"] = True
                    o["ro"] = True
                if self.p("enumf", 0.15) and o["fmt"] == "u16" and o["n"] == 1:
                    j["enum"] = [0, 1, r.choice([2, 65534])]
                    o["chk"] = o["chk"] and 65534 not in j["enum"]
                elif self.p("minmax", 0.3) and o["fmt"] in ("u16", "s16"):
                    j["min"], j["max"] = r.choice([(0, 100), (-10, 10), (0, 65535), (-100, -1)] if o["fmt"] == "s16" else [(0, 100), (0, 65535)])
                    un = -2 if o["fmt"] == "s16" else 65534
                    o["chk"] = o["chk"] and not j["min"] <= un <= j["max"]
                if not k and self.p("fw", 0.1):
                    o["fw"] = j["fw"] = r.choice(["1.0.0", "1.5.0", "2.3", "10.0.1"])
                if twice or self.p("cond", 0.25):
                    c = "%s==%d" % (ctl, k) if twice else r.choice(["%s==%d", "%s!=%d", "%s>%d"]) % (r.choice(ids), r.choice([0, 1, 2]))
                    o["cond"] = [ord(x) for x in c]
                    j["condition"] = c
                t["par"].append(o)
                pars[i] = j
                arr.append(dict(j, id=i))
        many = len({o["id"] for o in t["par"]}) != len(t["par"])
        if many or self.p("array", 0.3):
            dev["parameters"] = arr
        elif ids:
            dev["parameters"] = pars
            t["par"].sort(key=lambda o: o["id"])
        for i in range(r.choice([1, 2, 3])):
            o = {"id": "c%d" % i, "cond": [], "ro": False, "en": True, "fw": "", "wr": True, "chk": wb, "shown": True}
            j = {"name": "c%d" % i, "type": "value"}
            self.register(20000 + 10 * i + r.choice([0, 3]), o, j, tabs=(3, 3, 4, 1, 2))
            if o["fmt"] == "string":
                j["type"] = "text"
            o["ro"] = o["tab"] in (2, 4)
            if not o["ro"] and self.p("chro", 0.2):
                j["readonly"] = True
                o["ro"] = True
            if not o["ro"] and self.p("writeonly", 0.1):
                j["write_address"] = j.pop("address")
                o["shown"] = False
            if ids and self.p("chcond", 0.3):
                c = r.choice(["%s==%d", "%s!=%d", "%s>%d"]) % (r.choice(ids), r.choice([0, 1]))
                o["cond"] = [ord(x) for x in c]
                j["condition"] = c
            if self.p("off", 0.1):
                j["enabled"] = False
            dev["channels"].append(j)
            t["ch"].append(o)
        f = {"title": name, "device_type": name, "device": dev}
        if wb:
            t["sig"] = r.choice(["WBA", "WBMAP3", "LONGSIGNATURE20"])
            t["minfw"] = r.choice(["1.0.0", "1.2.3", "0"])
            f["hw"] = [{"signature": t["sig"], "fw": t["minfw"]}]
            dev["enable_wb_continuous_read"] = True
        elif self.p("maxread", 0.4):
            dev["max_read_registers"] = r.choice([1, 2, 10])
        if self.p("rtmpl", 0.2):
            dev["response_timeout_ms"] = t["rt"] = r.choice([50, 300])
        return t, f

    # ---- slaves
    def put(self, mem, o, v=None):
        r = self.r
        if o["tab"] < 3:
            w = [r.randrange(2)]
        elif o["fmt"] == "string":
            # (a string that looks like a number is answered as a string all the same)
            s = r.choice(["", "a", "abc", "hello world", "12", "12abc", "-", "1.5x", "x.y", "99999999999999999999999", "z" * o["n"]])
            s = s[:o["n"]]
            w = [ord(c) for c in s] + [0] * (o["n"] - len(s))
        else:
            if self.p("unsup", 0.12) and o["n"] <= 2:
                w = [0xFFFE] * o["n"]
            else:
                w = words(o["fmt"], self.number(o["fmt"]) if v is None else v, o["wo"])
        for i, x in enumerate(w):
            mem[(o["tab"], o["a"] + i)] = x

    def text_at(self, mem, a, s, n):
        for i in range(n):
            mem[(3, a + i)] = ord(s[i]) if i < len(s) else 0

    def identity(self, mem, sig, sn, fw="1.5.0"):
        r = self.r
        mem[(3, 110)] = r.choice([96, 96, 1152, 24])
        mem[(3, 111)] = r.choice([0, 1, 2, 7])
        mem[(3, 112)] = r.choice([1, 2])
        self.text_at(mem, 200, sig, 20)
        self.text_at(mem, 250, fw, 16)
        mem[(3, 270)] = sn >> 16
        mem[(3, 271)] = sn & 0xFFFF
        self.text_at(mem, 290, r.choice(["mr6cG", "fwSig", "abcdefghijkl"]), 12)

    def scenario(self, sid):
        r = self.r
        types = {}
        files = {}
        for i in range(r.choice([1, 2, 2])):
            t, f = self.template("T%d" % i)
            types[t["name"]] = t
            files["t%d.json" % i] = json.dumps(f)
        conf = {"ports": []}
        slaves, ports, devs = [], [], []
        self.sl = {}
        free = list(range(1, 50))
        r.shuffle(free)
        far = list(range(60, 200))
        r.shuffle(far)
        nports = r.choice([1, 1, 2])
        for k in range(nports):
            tcp = self.p("tcp", 0.15)
            if tcp:
                p = {"port_type": "modbus tcp", "address": "10.0.0.%d" % k, "port": 502, "devices": []}
                name = "10.0.0.%d:502" % k
            else:
                p = {"port_type": "serial", "path": "/dev/ttyV%d" % k, "devices": []}
                name = p["path"]
            mge = tcp and self.p("mge", 0.5)
            if mge:
                p["connected_to_mge"] = True
            ports.append({"name": name, "tcp": tcp, "fm": not tcp or mge, "far": []})
            slaves.append([])
            for i in range(r.choice([0, 1, 1, 2]) if nports > 1 or self.p("empty", 0.2) else r.choice([1, 2])):
                ty = r.choice(sorted(types))
                t = types[ty]
                # (one address may be used on both ports)
                s = free.pop() if not devs or self.p("ownsid", 0.6) or devs[-1]["p"] == k else devs[-1]["s"]
                d = {"slave_id": str(s), "device_type": ty, "id": "dev%d" % len(devs), "read_rate_limit_ms": r.choice([100, 500]),
                     "device_timeout_ms": r.choice([0, 500, 3000]), "device_max_fail_cycles": r.choice([1, 2])}
                if tcp:
                    d["protocol"] = "modbus-tcp"
                mem, unsup = self.device(t)
                user = {}
                for o in t["par"]:
                    if self.p("user", 0.25) and o["tab"] == 3 and not o["ro"] and o["fmt"] != "string" and o["id"] not in user \
                            and [x["id"] for x in t["par"]].count(o["id"]) == 1:
                        n = self.number(o["fmt"])
                        tx = text(n * o["m"] + o["off"] * 10 ** o["e"], o["e"])
                        d[o["id"]] = float(tx) if "." in tx else int(tx)
                        user[o["id"]] = ("d" if "." in tx else "i") + tx
                p["devices"].append(d)
                devs.append({"p": k, "s": s, "type": ty, "id": d["id"], "user": [[x, user[x]] for x in sorted(user)]})
                self.slave(slaves[-1], s, mem, unsup, t)
            for i in range(r.choice([0, 1, 2, 3])):
                # devices that nobody polls
                ty = r.choice(sorted(types))
                s = far.pop()
                mem, unsup = self.device(types[ty])
                ports[-1]["far"].append({"s": s, "type": ty})
                self.slave(slaves[-1], s, mem, unsup, types[ty])
            conf["ports"].append(p)
        self.ports, self.devs, self.types, self.slaves = ports, devs, types, slaves
        dur = r.choice(self.o.get("dur", [20, 40])) * 1000000
        acts, calls = [], []
        for i in range(r.choice(self.o.get("calls", [2, 4, 8]))):
            c, m, q = self.call(i)
            calls.append(c)
            acts.append({"t": r.randrange(1000, dur - 15000000) if not self.p("burst", 0.3) or not acts else acts[-1]["t"],
                         "a": "call", "id": i, "m": m, "q": q, "bus": self.p("bus", 0.5)})
        self.disturb(acts, dur)
        acts.sort(key=lambda a: a["t"])
        return {"id": sid, "files": files, "conf": json.dumps(conf), "slaves": slaves, "acts": acts, "dur": dur, "calls": calls,
                "ports": ports, "devs": devs, "types": [types[x] for x in sorted(types)],
                "sl": [[dict(s) for s in p] for p in slaves]}

    def device(self, t):
        r = self.r
        mem, unsup = {}, []
        for o in t["par"] + t["ch"]:
            self.put(mem, o, r.choice([0, 1, 2]) if self.p("small", 0.5) and o["tab"] > 2 and o["fmt"] != "string" else None)
        for o in t["par"]:
            if self.p("absent", 0.12) and o["tab"] > 2:
                unsup += [[o["tab"], o["a"] + i] for i in range(o["n"])]
                for i in range(o["n"]):
                    mem.pop((o["tab"], o["a"] + i), None)
        self.identity(mem, t["sig"] if t["wb"] and self.p("sigok", 0.9) else "OTHER", r.choice([0x01020304, 0xFE123456, 77, 0x81000001]),
                      r.choice(["1.2.3", "2.0.0", "1.5.0-rc1", "1.0.0", ""]))
        if not t["wb"]:
            if self.p("nosn", 0.3):
                unsup.append([3, 270])
        if self.p("nomodelex", 0.1):
            # older devices have a short model only
            unsup += [[3, 206 + i] for i in range(14)]
        return mem, unsup

    def slave(self, lst, s, mem, unsup, t):
        r = self.r
        gone = {tuple(x) for x in unsup}
        lst.append({"sid": s, "lat": r.choice([1000, 1000, 5000]), "fast": t["wb"] and self.p("fast", 0.7), "cont": t["wb"],
                    "sn": r.choice([1, 2, 3]) * 65536 + s, "unsup": unsup,
                    "mem": [[a, b, v] for (a, b), v in sorted(mem.items()) if (a, b) not in gone]})
        if lst[-1]["fast"]:
            m = {tuple(x[:2]): x for x in lst[-1]["mem"]}
            for a, v in ((270, lst[-1]["sn"] >> 16), (271, lst[-1]["sn"] & 0xFFFF)):
                if (3, a) in m:
                    m[(3, a)][2] = v

    # ---- calls
    def settings(self, q):
        """port settings of a request and how the simulated port shows them"""
        r = self.r
        b, pa, d, st = 9600, "N", 8, 1
        if self.p("settings", 0.8):
            b = r.choice([9600, 19200, 115200])
            pa = r.choice("NEO")
            d = r.choice([8, 8, 7])
            st = r.choice([1, 2])
            q.update({"baud_rate": b, "parity": pa, "data_bits": d, "stop_bits": st})
        return "%d%s%d%d" % (b, pa, d, st)

    def where(self, q, k):
        p = self.ports[k]
        if p["tcp"]:
            q["ip"], q["port"] = p["name"].split(":")[0], 502
        else:
            q["path"] = p["name"]

    def call(self, i):
        r = self.r
        kinds = self.o.get("kinds", ["load", "load", "raw", "setup", "scan", "probe", "get", "get", "set", "set", "config", "config", "config"])
        return getattr(self, "c_" + r.choice(kinds))({"id": i})

    def target(self, k, q, c):
        """a device of the configuration or another one"""
        r = self.r
        mine = [d for d in self.devs if d["p"] == k]
        far = self.ports[k]["far"]
        if mine and (not far or self.p("mine", 0.5)):
            d = r.choice(mine)
            c.update({"s": d["s"], "dev": self.devs.index(d)})
            if self.p("byid", 0.4):
                q["device_id"] = d["id"]
                c["byid"] = True
                return d["type"]
            self.where(q, k)
            q["slave_id"] = str(d["s"]) if self.p("sidtext", 0.5) else d["s"]
            return d["type"]
        if far:
            d = r.choice(far)
        else:
            d = {"s": r.randrange(200, 240), "type": r.choice(sorted(self.types))}
        self.where(q, k)
        c.update({"s": d["s"], "dev": -1})
        q["slave_id"] = str(d["s"])
        return d["type"]

    def base(self, c, kind):
        r = self.r
        k = r.randrange(len(self.ports))
        c.update({"k": kind, "p": k, "set": "", "s": -1, "dev": -1, "byid": False, "total": 10000})
        q = {}
        if self.p("total", 0.05):
            c["total"] = q["total_timeout"] = 1
        return k, q

    def c_load(self, c):
        """port/Load of a Modbus request"""
        r = self.r
        k, q = self.base(c, "load")
        self.target(k, q, c)
        if "slave_id" in q:
            q["slave_id"] = c["s"]
        else:
            q["slave_id"] = r.choice([c["s"], 247])
        proto = "modbus-tcp" if self.ports[k]["tcp"] else "modbus"
        q["protocol"] = proto
        c["set"] = self.settings(q)
        if c["byid"]:
            c["set"] = ""
        f = r.choice([3, 3, 4, 1, 2, 6, 16, 5, 15])
        n = r.choice([1, 2, 7, 20, 125 if f in (3, 4) else 9]) if f in (1, 2, 3, 4) else 1 if f in (5, 6) else r.choice([1, 2, 5, 9])
        a = r.choice([300, 301, 310, 1500, 20000])
        d, b = [], []
        if f == 6:
            d = [r.randrange(65536)]
            b = [d[0] >> 8, d[0] & 255]
        elif f == 5:
            d = [r.randrange(2)]
            b = [255 * d[0], 0]
        elif f == 16:
            d = [r.randrange(65536) for _ in range(n)]
            b = [y for x in d for y in (x >> 8, x & 255)]
        elif f == 15:
            d = [r.randrange(2) for _ in range(n)]
            b = [sum(d[j + x] << x for x in range(min(8, n - j))) for j in range(0, n, 8)]
        if d:
            a = 2000 + r.randrange(50)
        c.update({"f": f, "a": a, "n": n, "d": d, "hex": 1})
        q.update({"function": f, "address": a, "count": n, "format": "HEX", "msg": "".join("%02x" % x for x in b)})
        if self.p("rt", 0.3):
            q["response_timeout"] = r.choice([3, 20, 100, 700])
        return c, "port/Load", q

    def c_raw(self, c):
        r = self.r
        k, q = self.base(c, "raw")
        self.where(q, k)
        c["set"] = self.settings(q)
        far = self.ports[k]["far"]
        c["s"] = r.choice(far)["s"] if far else 222
        # (frames are made by the specification's own checksum: only the text of the message matters here)
        if self.ports[k]["tcp"]:
            b = [r.randrange(256), r.randrange(256), 0, 0, 0, 6, c["s"], 3, 1, 44, 0, r.choice([1, 2, 5])]
        else:
            b = [c["s"], r.choice([3, 4]), 1, 44, 0, r.choice([1, 2, 5])]
            crc = 0xFFFF
            for x in b:
                crc ^= x
                for _ in range(8):
                    crc = (crc >> 1) ^ 0xA001 if crc & 1 else crc >> 1
            b += [crc & 255, crc >> 8]
            if self.p("junk", 0.2):
                b = [r.randrange(256) for _ in range(r.choice([1, 5, 30]))]
                b[0] = 250
        c["raw"] = b
        c["size"] = r.choice([5, 7, 9, 15, 40])
        c["hex"] = 1
        q.update({"format": "HEX", "msg": "".join("%02X" % x for x in b), "response_size": c["size"], "response_timeout": r.choice([30, 300])})
        return c, "port/Load", q

    def c_setup(self, c):
        r = self.r
        k, q = self.base(c, "setup")
        self.where(q, k)
        q["items"] = []
        c["items"] = []
        for _ in range(r.choice([1, 1, 2, 3])):
            it = {}
            st = self.settings(it)
            far = self.ports[k]["far"]
            s = r.choice(far)["s"] if far and self.p("known", 0.8) else 230
            it["slave_id"] = s
            o = {"s": s, "set": st, "sn": [], "w": []}
            if self.p("bysn", 0.4):
                x = [y for y in self.slaves[k] if y["sid"] == s]
                sn = x[0]["sn"] if x else 12345
                it["sn"] = sn
                o["sn"] = [sn >> 16, sn & 0xFFFF]
            cfg = {}
            if self.p("baud", 0.7):
                v = r.choice([9600, 19200, 115200])
                cfg["baud_rate"] = v
                o["w"].append([110, v // 100])
            if self.p("parity", 0.5):
                v = r.choice([0, 1, 2])
                cfg["parity"] = v
                o["w"].append([111, v])
            if self.p("stop", 0.4):
                v = r.choice([1, 2])
                cfg["stop_bits"] = v
                o["w"].append([112, v])
            if self.p("newsid", 0.3):
                # (the simulated slave keeps its address)
                v = r.choice([s, 240])
                cfg["slave_id"] = v
                o["w"].append([128, v])
            if cfg:
                it["cfg"] = cfg
            q["items"].append(it)
            c["items"].append(o)
        return c, "port/Setup", q

    def c_scan(self, c):
        r = self.r
        k, q = self.base(c, "scan")
        self.where(q, k)
        c["set"] = self.settings(q)
        c["mode"] = r.choice(["all", "all", "all", "start", "next"])
        if c["mode"] != "all" or self.p("modeall", 0.5):
            q["mode"] = c["mode"]
        c["cmd"] = 70
        if self.p("cmd", 0.4):
            c["cmd"] = q["command"] = r.choice([0x46, 0x60])
        else:
            c["cmd"] = 0x46
        return c, "port/Scan", q

    def c_probe(self, c):
        r = self.r
        k, q = self.base(c, "probe")
        q.pop("total_timeout", None)
        c["total"] = 10000
        ty = self.target(k, q, c)
        q.pop("device_id", None)
        c["byid"] = False
        self.where(q, k)
        q["slave_id"] = c["s"]
        q["protocol"] = "modbus-tcp" if self.ports[k]["tcp"] else "modbus"
        c["set"] = self.settings(q)
        return c, "device/Probe", q

    def devcall(self, c, kind):
        k, q = self.base(c, kind)
        ty = self.target(k, q, c)
        c["type"] = ty
        if not c["byid"]:
            q["device_type"] = ty
            st = self.settings(q)
            if c["dev"] < 0:
                c["set"] = st
                if self.ports[k]["tcp"]:
                    q["modbus_mode"] = "TCP"
        if self.p("rt", 0.2):
            q["response_timeout"] = self.r.choice([50, 700])
        return k, q, self.types[ty]

    def c_get(self, c):
        r = self.r
        k, q, t = self.devcall(c, "get")
        def some(lst, x):
            ids = sorted({o["id"] for o in lst})
            n = r.choice([0, 0, 1, 2, 3])
            l = [r.choice(ids) for _ in range(n)] if ids else []
            if self.p("unknown", 0.07):
                l.append(x)
            return l
        ch, pa = some(t["ch"], "nothing"), some(t["par"], "nopar")
        if ch:
            q["channels"] = ch
        if pa:
            q["parameters"] = pa
        c["ch"], c["par"] = ch, pa
        return c, "device/Load", q

    def c_set(self, c):
        r = self.r
        k, q, t = self.devcall(c, "set")
        c["items"] = []
        for what, lst in (("channels", t["ch"]), ("parameters", t["par"])):
            good = [o for o in lst if not o["ro"] and o["fmt"] != "string" and [x["id"] for x in lst].count(o["id"]) == 1]
            sel = r.sample(good, min(len(good), r.choice([0, 1, 1, 2, 3])))
            m = {}
            for o in sel:
                n = r.randrange(2) if o["tab"] == 1 else self.number(o["fmt"])
                tx = text(n * o["m"] + o["off"] * 10 ** o["e"], o["e"])
                m[o["id"]] = r.choice([tx, float(tx) if "." in tx else int(tx)])
                c["items"].append({"what": what, "id": o["id"], "n": n})
            if self.p("unknown", 0.06):
                m["zzz"] = 1
                c["items"].append({"what": what, "id": "zzz", "n": 1})
            ro = [o for o in lst if o["ro"]]
            if ro and self.p("setro", 0.06):
                i = r.choice(ro)["id"]
                if i not in m and not [o for o in lst if o["id"] == i and not o["ro"]]:
                    m[i] = 1
                    c["items"].append({"what": what, "id": i, "n": 1})
            if m:
                q[what] = m
        return c, "device/Set", q

    def c_config(self, c):
        k, q, t = self.devcall(c, "config")
        c["force"] = self.p("force", 0.3)
        if c["force"]:
            q["force"] = True
        return c, "device/LoadConfig", q

    def disturb(self, acts, dur):
        r = self.r
        for k, lst in enumerate(self.slaves):
            for i, s in enumerate(lst):
                if self.p("dead", 0.15):
                    t = r.randrange(dur)
                    acts.append({"t": t, "a": "dead", "p": k, "d": i, "bus": True})
                    if self.p("back", 0.7):
                        acts.append({"t": min(dur, t + r.choice([500000, 3000000])), "a": "live", "p": k, "d": i, "bus": True})
                for _ in range(r.choice([0, 1, 3]) if self.p("faults", 0.3) else 0):
                    kind = r.choice(["to", "lost", "exc", "crc", "sid", "fn", "slow"])
                    acts.append({"t": r.randrange(dur), "a": "fault", "p": k, "d": i, "n": r.choice([1, 1, 2, 5]), "kind": kind,
                                 "c": {"exc": r.choice([1, 2, 3, 4, 6]), "slow": 20}.get(kind, 0), "bus": True})
                if self.p("change", 0.3) and s["mem"]:
                    x = r.choice(s["mem"])
                    if x[0] == 3 and x[1] >= 300 and x[1] < 20000:
                        acts.append({"t": r.randrange(dur), "a": "mem", "p": k, "d": i, "tab": 3, "ad": x[1], "v": [r.randrange(3)], "bus": False})
            if self.p("scanfault", 0.2):
                acts.append({"t": r.randrange(dur), "a": "scanfault", "p": k, "list": [r.choice(["", "to", "lost", "crc"]) for _ in range(3)], "bus": True})
            if self.p("failopen", 0.06):
                t = r.randrange(dur)
                acts.append({"t": t, "a": "failopen", "p": k, "v": True, "bus": True})
                acts.append({"t": t + 1000000, "a": "failopen", "p": k, "v": False, "bus": True})
            if self.p("failwrite", 0.06):
                t = r.randrange(dur)
                acts.append({"t": t, "a": "failwrite", "p": k, "v": True, "bus": True})
                acts.append({"t": t + 1000000, "a": "failwrite", "p": k, "v": False, "bus": True})
