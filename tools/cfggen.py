"""Configurations and templates: real JSON for the loader, the abstract form for the specification (spec/config)."""
import copy
import json
import os
import re

NUM = ["response_timeout_ms", "frame_timeout_ms", "device_timeout_ms", "device_max_fail_cycles", "max_write_fail_time_s",
       "max_reg_hole", "max_bit_hole", "max_read_registers", "min_read_registers", "max_write_registers",
       "guard_interval_us", "min_request_interval", "read_rate_limit_ms", "poll_interval"]
FLAGS = ["preserve_setup_order", "continue_polling_on_illegal_modbus_exception", "enable_wb_continuous_read"]


def g15(v):
    return "%.15g" % v


def stoul(s):
    """C's strtoul with base 0, -1 when nothing could be read"""
    m = re.match(r"\s*([+-]?)(0[xX][0-9a-fA-F]+|[0-9]+)", s)
    if not m:
        return -1
    t = m.group(2)
    if t[:2] in ("0x", "0X"):
        v = int(t, 16)
    elif t[0] == "0" and len(t) > 1:
        o = re.match(r"0[0-7]*", t).group(0)
        v = int(o, 8)
    else:
        v = int(t)
    return -v if m.group(1) == "-" else v


def a_addr(v):
    if isinstance(v, str):
        if v == "":
            return {"a": -1, "off": 0, "w": 0}
        p = v.split(":")
        if len(p) == 1:
            return {"a": stoul(v), "off": 0, "w": 0}
        return {"a": stoul(p[0]), "off": int(p[1]), "w": int(p[2]) if len(p) > 2 else 0}
    return {"a": int(v), "off": 0, "w": 0}


def a_text(v):
    """the text jsoncpp makes of a value"""
    if isinstance(v, bool):
        return "true" if v else "false"
    if v is None:
        return ""
    if isinstance(v, float):
        return g15(v)
    return str(v)


def a_bool(v):
    if isinstance(v, str):
        return v == "true"
    return bool(v)


def a_reg(c, o=None):
    o = {} if o is None else o
    for k in ("reg_type", "format", "word_order", "byte_order", "fw"):
        if k in c:
            o[k] = c[k]
    for k in ("address", "write_address"):
        if k in c:
            o[k] = a_addr(c[k])
    for k in ("scale", "offset", "round_to"):
        if k in c:
            o[k] = g15(c[k])
    for k in ("readonly", "sporadic", "enabled", "hidden"):
        if k in c:
            o[k] = a_bool(c[k])
    if "semi-sporadic" in c:
        o["semi"] = a_bool(c["semi-sporadic"])
    for k in ("error_value", "unsupported_value"):
        if k in c:
            o[k] = str(stoul(str(c[k])))
    for k in ("read_rate_limit_ms", "read_period_ms", "poll_interval", "string_data_size"):
        if k in c:
            o[k] = int(c[k])
    return o


def a_par(v):
    n = isinstance(v, (int, float)) and not isinstance(v, bool)
    i = n and (isinstance(v, int) or v == int(v)) and -2**31 <= v < 2**31
    return {"num": n, "int": bool(i), "n": int(v) if i else 0, "v": a_text(v)}


CH = {"reg_type", "format", "word_order", "byte_order", "fw", "address", "write_address", "scale", "offset", "round_to",
      "readonly", "sporadic", "enabled", "hidden", "semi-sporadic", "error_value", "unsupported_value", "read_rate_limit_ms",
      "read_period_ms", "poll_interval", "string_data_size", "name", "id", "type", "units", "max", "min", "on_value", "off_value",
      "enum", "enum_titles", "condition", "device_type", "oneOf", "shift", "stride", "channels", "setup", "consists_of"}


def a_num(v):
    return g15(stoul(v)) if isinstance(v, str) else g15(v)


def a_channel(c):
    o = a_reg(c)
    for k in ("name", "id", "type", "units", "device_type", "oneOf"):
        if k in c:
            o[k] = c[k]
    for k in ("max", "min"):
        if k in c:
            o[k] = a_num(c[k])
    for k in ("on_value", "off_value"):
        if k in c:
            o[k] = str(stoul(c[k])) if isinstance(c[k], str) else str(int(c[k]))
    if "enum" in c:
        o["enum"] = [a_text(x) for x in c["enum"]]
    if "enum_titles" in c:
        o["enum_titles"] = c["enum_titles"]
    if "condition" in c:
        o["condition"] = [ord(x) for x in c["condition"]]
    for k in ("shift", "stride"):
        if k in c:
            o[k] = stoul(str(c[k]))
    if "channels" in c:
        o["channels"] = [a_channel(x) for x in c["channels"]]
    if "setup" in c:
        o["setup"] = [a_setup(x) for x in c["setup"]]
    if "consists_of" in c:
        o["consists_of"] = [a_reg(x) for x in c["consists_of"]]
    o["P"] = {k: a_par(c[k]) for k in c if k not in CH}
    return o


def a_setup(s):
    o = a_reg(s)
    for k in ("title",):
        if k in s:
            o[k] = s[k]
    o["value"] = a_text(s.get("value"))
    if "condition" in s:
        o["condition"] = [ord(x) for x in s["condition"]]
    return o


def a_param(p, pid):
    o = a_reg(p)
    o["id"] = pid
    if "title" in p:
        o["title"] = p["title"]
    if "condition" in p:
        o["condition"] = [ord(x) for x in p["condition"]]
    if "default" in p:
        o["default"] = a_par(p["default"])
    # (as written, for the comparison of declarations)
    o["raw"] = [json.dumps(p.get(k), sort_keys=True) for k in ("write_address", "address", "fw")]
    return o


def a_devtempl(d):
    o = {}
    for k in ("name", "id", "protocol"):
        if k in d:
            o[k] = d[k]
    for k in NUM:
        if k in d:
            o[k] = int(d[k])
    for k in FLAGS:
        if k in d:
            o[k] = a_bool(d[k])
    if "password" in d:
        o["password"] = [stoul(str(x)) for x in d["password"]]
    ps = d.get("parameters", [])
    o["parr"] = isinstance(ps, list)
    o["params"] = [a_param(p, p.get("id", "")) for p in ps] if isinstance(ps, list) else \
        [a_param(ps[k], k) for k in sorted(ps)]
    o["setup"] = [a_setup(x) for x in d.get("setup", [])]
    o["channels"] = [a_channel(x) for x in d.get("channels", [])]
    o["hassub"] = "subdevices" in d
    sub = {}
    for x in d.get("subdevices", []):
        sub.setdefault(x["device_type"], a_devtempl(x["device"]))
    o["sub"] = [[k, sub[k]] for k in sorted(sub)]
    tr = {l: t for l, t in d.get("translations", {}).items() if t}
    o["tr"] = [[l, [[k, t[k]] for k in sorted(t)]] for l, t in sorted(tr.items())]
    return o


def a_template(t):
    return {"dep": a_bool(t.get("deprecated", False)), "hw": bool(t.get("hw")), "dev": a_devtempl(t["device"])}


DEV = set(NUM + FLAGS + ["name", "id", "protocol", "slave_id", "enabled", "device_type", "password", "channels", "setup"])


def a_sid(v):
    s = a_text(v)
    sub = stoul(s.split(":")[-1])
    return {"s": s, "n": stoul(s), "sub": sub}


def a_device(d):
    o = {}
    for k in ("name", "id", "protocol", "device_type"):
        if k in d:
            o[k] = d[k]
    for k in NUM:
        if k in d:
            o[k] = int(d[k])
    for k in FLAGS + ["enabled"]:
        if k in d:
            o[k] = a_bool(d[k])
    if "password" in d:
        o["password"] = [stoul(str(x)) for x in d["password"]]
    if "slave_id" in d and d["slave_id"] != "":
        o["slave_id"] = a_sid(d["slave_id"])
    o["setup"] = [a_setup(x) for x in d.get("setup", [])]
    o["channels"] = [a_channel(x) for x in d.get("channels", [])]
    o["P"] = {k: a_par(d[k]) for k in d if k not in DEV}
    return o


def a_conf(c):
    o = {"ports": []}
    for k in ("rate_limit", "max_unchanged_interval"):
        if k in c:
            o[k] = c[k]
    for p in c["ports"]:
        q = {"tcp": p.get("port_type", "serial") == "modbus tcp",
             "n": p["path"] if "path" in p else "%s:%s" % (p["address"], p["port"])}
        for k in ("guard_interval_us", "read_rate_limit_ms", "poll_interval", "connection_timeout_ms", "connection_max_fail_cycles",
                  "response_timeout_ms"):
            if k in p:
                q[k] = p[k]
        if "enabled" in p:
            q["enabled"] = p["enabled"]
        q["devices"] = [a_device(d) for d in p["devices"]]
        o["ports"].append(q)
    return o


def drop_empty(x):
    """TLC takes no empty object: the specification looks a missing one up as an empty one"""
    if isinstance(x, dict):
        return {k: drop_empty(v) for k, v in x.items() if v != {}}
    if isinstance(x, list):
        return [drop_empty(v) for v in x]
    return x


def scenario(sid, files, conf, types=None, **kw):
    """files: {file name: template}; conf: the configuration"""
    T = {}
    for n in sorted(files):
        T[files[n]["device_type"]] = a_template(files[n])
    sc = {"id": sid, "files": {n: json.dumps(t) for n, t in files.items()}, "conf": json.dumps(conf), "C": drop_empty(a_conf(conf))}
    if T:
        sc["T"] = drop_empty(T)
    # the characters of the names conditions may use
    names = set(PARAMS)
    for t in T.values():
        names |= {p["id"] for p in t["dev"]["params"]}
    sc["codes"] = {n: [ord(c) for c in n] for n in sorted(names) if n}
    sc.update(kw)
    return sc


# ---------------------------------------------------------------------------------------------------------------------
# random templates and configurations
FMTS = ["u8", "s8", "u16", "s16", "s24", "u24", "u32", "s32", "s64", "u64", "bcd8", "bcd16", "bcd24", "bcd32", "float", "double",
        "char8"]
TYPES = ["holding", "holding", "holding", "input", "coil", "discrete", "holding_single", "holding_multi", "press_counter"]
CTYPES = ["value", "switch", "wo-switch", "pushbutton", "range", "temperature", "text", "dimmer"]
NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Mode", "Input 1", "Input 2"]
PARAMS = ["p1", "p2", "p3", "p4"]
CONDS = ["p1==1", "p1!=1", "p1>0&&p2==2", "p2==2||p3==0", "isDefined(p1)", "isDefined(p4)&&p4>1", "(p1==1)&&(p2!=0)", "p3<5",
         "p4==3", "p2>=1", "p1==1||p1==2", "isDefined(p2)||p4!=1"]


class Gen:
    def __init__(self, rnd, **o):
        self.r = rnd
        self.o = o

    def p(self, x):
        return self.r.random() < x

    def addr(self, a):
        r = self.r
        x = a + r.choice([0, 0, 1, 2, 100])
        return r.choice([x, x, x, str(x), hex(x), "0x%X" % x])

    def reg(self, i, writable=True, setup=False):
        r = self.r
        c = {"address": self.addr(10 * i)}
        if self.p(0.6):
            c["reg_type"] = r.choice([t for t in TYPES if not setup or t in ("holding", "coil", "holding_single", "holding_multi")])
            if self.p(0.02) and not setup:
                c["reg_type"] = "nosuch"
        if self.p(0.4) and c.get("reg_type") not in ("coil", "discrete"):
            c["format"] = r.choice([f for f in FMTS if not setup or f in ("u16", "s16", "u32", "u8", "float")])
            if self.p(0.1):
                c["format"] = r.choice(["string", "string8"])
                if self.p(0.9) or setup:
                    c["string_data_size"] = r.choice([2, 6, 10])
            elif self.p(0.03):
                c["format"] = "unknown"
        if self.p(0.15) and "string_data_size" not in c:
            c["address"] = "%s:%d:%d" % (r.choice([str(10 * i), hex(10 * i)]), r.choice([0, 1, 4, 7, 8, 15] if self.p(0.9) else [16, 33]), r.choice([1, 2, 4, 8]))
            if self.p(0.1):
                c["address"] = c["address"].rsplit(":", 1)[0]
        if self.p(0.12) and not setup:
            w = c["address"]
            k = r.random()
            if k < 0.5 and (":" not in str(w) or self.p(0.05)):
                c["write_address"] = self.addr(500 + 10 * i)
            elif k < 0.8 and isinstance(w, str) and w.count(":") == 2:
                c["write_address"] = "700:" + w.split(":", 1)[1]
            elif k < 0.83:
                c["write_address"] = "701:2:2"
            elif not isinstance(w, str) or ":" not in w or self.p(0.1):
                c["write_address"] = 702
            if ":" in str(c.get("write_address", ":")) and self.p(0.9):
                pass
            elif self.p(0.25):
                c.pop("address")
            elif self.p(0.1):
                c["address"] = ""
        if self.p(0.2):
            c["scale"] = r.choice([0.1, 0.01, 10, 2.5, 0.00390625])
        if self.p(0.1):
            c["offset"] = r.choice([-273, 1.5, 100])
        if self.p(0.15):
            c["round_to"] = r.choice([0.1, 0.01, 1, 5])
        if self.p(0.1):
            c["word_order"] = r.choice(["big_endian", "little_endian"])
        if self.p(0.1):
            c["byte_order"] = r.choice(["big_endian", "little_endian"])
        if self.p(0.1):
            c["error_value"] = r.choice(["0x7FFF", 32767, "0xFFFFFFFF", 0])
        if self.p(0.1):
            c["unsupported_value"] = r.choice(["0xFFFE", 65534])
        return c

    def channel(self, i, top, conds=True):
        r = self.r
        c = {"name": r.choice(NAMES) if self.p(0.15) else "%s %d" % (r.choice(NAMES[:5]), i)}
        if self.p(0.12):
            c["consists_of"] = [self.reg(i + k) for k in range(r.choice([1, 2, 3]))]
            for x in c["consists_of"]:
                if self.p(0.97):
                    for k in ("write_address",):
                        x.pop(k, None)
                    if x.get("address", "") == "":
                        x["address"] = 10 * i
                    if x.get("reg_type") not in (None, "holding", "coil", "holding_multi"):
                        x["reg_type"] = "holding"
                    if x.get("reg_type") == "holding":
                        pass
                    if "format" in x and x["format"].startswith("string"):
                        x.pop("format")
                        x.pop("string_data_size", None)
                    if ":" in str(x["address"]):
                        x["address"] = 10 * i
        else:
            c.update(self.reg(i))
        if self.p(0.6):
            c["type"] = r.choice(CTYPES)
        if self.p(0.25):
            c["id"] = r.choice(["alpha", "beta_%d" % i, "id%d" % i])
        if self.p(0.15):
            c["units"] = r.choice(["V", "deg C", ""])
        if self.p(0.15):
            c["max"] = r.choice([100, 255.5, "0xFF"])
        if self.p(0.1):
            c["min"] = r.choice([-5, 0, 1])
        if "consists_of" not in c or self.p(0.03):
            if self.p(0.12):
                c["on_value"] = r.choice([1, "0xFF00", 255])
            if self.p(0.1):
                c["off_value"] = r.choice([0, 2, "0x10"])
        if self.p(0.15):
            c["enum"] = r.choice([[0, 1, 2], ["0", "1"], [10, "20"]])
            if self.p(0.7):
                c["enum_titles"] = ["Off", "On", "Auto"][:len(c["enum"]) + r.choice([0, 0, 0, 1]) - r.choice([0, 0, 0, 1])]
        if self.p(0.2):
            c["enabled"] = r.choice([True, False])
        if self.p(0.08):
            c["hidden"] = r.choice([True, False])
        if self.p(0.2):
            c["readonly"] = r.choice([True, True, False])
        if self.p(0.15):
            c["sporadic"] = r.choice([True, False])
        if self.p(0.05):
            c["semi-sporadic"] = True
        if self.p(0.15):
            c["read_period_ms"] = r.choice([50, 1000])
        if self.p(0.15):
            c["read_rate_limit_ms"] = r.choice([0, 500, 5000])
        if self.p(0.1):
            c["fw"] = r.choice(["1.2.3", "2.0"])
        if conds and self.p(0.25):
            c["condition"] = r.choice(CONDS)
        return c

    def setup_item(self, i, conds=True):
        r = self.r
        s = self.reg(i, setup=True)
        if self.p(0.9):
            s["title"] = r.choice(["First", "Second", "Item %d" % i])
        f = s.get("format", "u16")
        s.pop("write_address", None)
        if s.get("reg_type") == "coil":
            s["value"] = r.choice([0, 1])
            s["address"] = 10 * i
        elif f.startswith("string"):
            s["value"] = "ab"
        elif f == "float":
            s["value"] = r.choice([1.5, 2, 0.1])
        else:
            s["value"] = r.choice([0, 1, 5, "7", "0x11", 100])
        for k in ("scale", "offset", "round_to", "error_value", "unsupported_value"):
            if self.p(0.7):
                s.pop(k, None)
        if s.get("scale") or s.get("offset"):
            # (of a number that the register can hold)
            s["value"] = r.choice([0, 1, 5, 50]) * s.get("scale", 1) + s.get("offset", 0)
        if conds and self.p(0.3):
            s["condition"] = r.choice(CONDS)
        return s

    def params(self, arr, twice):
        r = self.r
        res = []
        for k, n in enumerate(PARAMS):
            if self.p(0.75):
                q = {"id": n, "title": "Parameter " + n, "address": 900 + k}
                if self.p(0.3):
                    q["reg_type"] = r.choice(["holding", "coil", "holding_single"])
                if self.p(0.4):
                    q["default"] = r.choice([0, 1, 2, 3])
                if self.p(0.15):
                    q["readonly"] = True
                if self.p(0.1):
                    q["scale"] = 0.5
                if self.p(0.3):
                    q["condition"] = r.choice([c for c in CONDS if n not in c])
                if self.p(0.1):
                    q["fw"] = "1.1"
                res.append(q)
                if twice and self.p(0.25):
                    # another declaration of it
                    q2 = dict(q)
                    if self.p(0.04):
                        q2["address"] = 950
                    if self.p(0.04):
                        q2["fw"] = "7.7"
                    q["condition"], q2["condition"] = r.choice([("p1==1", "p1!=1"), ("p1>1", "p1<=1"), ("p1==2", "p2==2"),
                                                                ("isDefined(p2)", "p3==1")])
                    if self.p(0.5):
                        q2["default"] = r.choice([0, 1, 2, 3])
                    res.append(q2)
        return res

    def devprops(self, d, q):
        r = self.r
        for k in NUM[:12]:
            if self.p(q):
                d[k] = r.choice([1, 5, 50]) if k != "frame_timeout_ms" else r.choice([0, 12, -1])
        if self.p(q):
            d["guard_interval_us"] = r.choice([0, 100, 7000])
        if self.p(q):
            d["preserve_setup_order"] = self.p(0.7)
        if self.p(q):
            d["continue_polling_on_illegal_modbus_exception"] = self.p(0.7)
        if self.p(q):
            d["password"] = ["0x01", 2, "3"][:r.choice([1, 3])]
        if self.p(q):
            d["read_rate_limit_ms"] = r.choice([0, 100, 3000])

    def subdevice(self, names, deep):
        r = self.r
        d = {"channels": [self.channel(k, False, conds=False) for k in range(r.choice([1, 2, 3]))]}
        for c in d["channels"]:
            c["name"] = r.choice(["x", "y", "z", "Alpha"])
        if names and deep:
            d["channels"].append({"name": "inner", "device_type": r.choice(names)})
        if self.p(0.5):
            d["setup"] = [self.setup_item(60 + k, conds=False) for k in range(r.choice([1, 2]))]
        if self.p(0.3):
            d["parameters"] = {"p1": {"title": "P", "address": 950}}
        return d

    def template(self, ty):
        r = self.r
        d = {"name": "Device %s" % ty}
        if self.p(0.85):
            d["id"] = "dev-" + ty
        self.devprops(d, 0.12)
        d["channels"] = [self.channel(k, True) for k in range(r.choice([1, 3, 6, 9]))]
        if all("reg_type" not in c for c in d["channels"]):
            pass
        arr = self.p(0.6)
        sub = self.p(0.25)
        ps = self.params(arr, arr and (not sub or self.p(0.05)))
        if ps:
            d["parameters"] = ps if arr else {p["id"]: {k: v for k, v in p.items() if k != "id"} for p in ps}
        if self.p(0.6):
            d["setup"] = [self.setup_item(30 + k) for k in range(r.choice([1, 2, 4]))]
            if self.p(0.3) and len(d["setup"]) > 1:
                for k in ("address", "reg_type"):
                    if k in d["setup"][0]:
                        d["setup"][1][k] = d["setup"][0][k]
        if sub:
            names = ["s%d" % k for k in range(r.choice([1, 2, 3]))]
            subs = []
            for k, n in enumerate(names):
                below = names[k + 1:] if self.p(0.97) else names
                subs.append({"device_type": n, "device": self.subdevice(below, self.p(0.5))})
            if self.p(0.04):
                names.append("missing")
            d["subdevices"] = subs
            for k in range(r.choice([1, 2])):
                c = {"name": "Group %d" % k, "shift": r.choice([0, 100, "0x20"]), "stride": r.choice([0, 1, 2])}
                if self.p(0.4):
                    c["id"] = r.choice(["", "g%d" % k])
                if self.p(0.5):
                    c["device_type"] = r.choice(names)
                else:
                    c["oneOf"] = r.sample(names, min(len(names), 2))
                d["channels"].append(c)
            if self.p(0.05):
                # a chain
                n = r.choice([5, 6, 7])
                d["subdevices"] = [{"device_type": "c%d" % k, "device": {"channels": [
                    {"name": "n%d" % k, "device_type": "c%d" % (k + 1)} if k < n - 1 else {"name": "last", "address": 5}]}}
                    for k in range(n)]
                d["channels"] = [{"name": "Chain", "device_type": "c0"}]
        if self.p(0.3):
            tr = {}
            for l in r.sample(["ru", "en", "de"], r.choice([1, 2])):
                ns = [c["name"] for c in d["channels"]] + ["x", "y", "Off", "On", "inner", "Alpha"]
                tr[l] = {n: n.upper() + " (" + l + ")" for n in ns if self.p(0.5)}
            d["translations"] = tr
        if self.p(0.05):
            r.choice(d["channels"])["condition"] = r.choice(["p1==", "(p1", "p1=1", "&&", ""])
        if self.p(0.06):
            d["enable_wb_continuous_read"] = True
        t = {"device_type": ty, "title": "T " + ty, "device": d}
        if self.p(0.15):
            t["hw"] = [{"signature": "sig"}]
        if self.p(0.05) and not any(len(c.get("condition", "")) in (2, 3, 4) for c in d["channels"]):
            t["deprecated"] = True
        return t

    def override(self, c):
        """What a user may write for a template's channel"""
        r = self.r
        u = {"name": c["name"]}
        for k, vs in (("enabled", [True, False]), ("readonly", [True, False]), ("read_period_ms", [100, 700]),
                      ("read_rate_limit_ms", [0, 250]), ("units", ["kW"]), ("hidden", [True, False]), ("min", [3]),
                      ("poll_interval", [40]), ("sporadic", [True, False]), ("enum_titles", [["a", "b", "c"]])):
            if self.p(0.2):
                u[k] = r.choice(vs)
        if self.p(0.3):
            # not allowed: has no effect
            k = r.choice(["id", "type", "reg_type", "address", "format", "max", "scale", "offset", "round_to", "on_value",
                          "off_value", "error_value", "unsupported_value", "word_order", "byte_order", "consists_of"])
            u[k] = {"id": "own", "type": "switch", "reg_type": "input", "address": 4321, "format": "s64", "max": 1, "scale": 7, "offset": 7,
                    "round_to": 7, "on_value": 77, "off_value": 78, "error_value": 1, "unsupported_value": 2,
                    "word_order": "little_endian", "byte_order": "little_endian", "consists_of": [{"address": 1}, {"address": 2}]}[k]
        if self.p(0.004):
            u["device_type"] = "s0"
        return u

    def device(self, di, templates):
        r = self.r
        d = {}
        if templates and self.p(0.85):
            t = r.choice(templates)
            d["device_type"] = t["device_type"] if self.p(0.99) else "absent"
            tc = t["device"]["channels"]
        else:
            t = None
            tc = []
        d["slave_id"] = r.choice([str(di + 1), str(di + 1), di + 1, hex(di + 1), "0%o" % (di + 1)])
        if self.p(0.3):
            d["name"] = r.choice(["My device", "Other %d" % di])
        if self.p(0.3):
            d["id"] = "user-%d" % di
        if self.p(0.1):
            d["enabled"] = self.p(0.5)
        self.devprops(d, 0.08)
        if self.p(0.08):
            d["poll_interval"] = r.choice([10, 90])
        chs = []
        for c in tc:
            if "oneOf" in c or "device_type" in c:
                if self.p(0.8):
                    u = {"name": c["name"]}
                    if "oneOf" in c:
                        u["device_type"] = r.choice(c["oneOf"]) if self.p(0.96) else r.choice(["other", None])
                    else:
                        u["device_type"] = c["device_type"] if self.p(0.97) else "other"
                    if u["device_type"] is None:
                        u.pop("device_type")
                    sub = {x["device_type"]: x["device"] for x in t["device"].get("subdevices", [])}.get(u.get("device_type"))
                    if sub and self.p(0.6):
                        u["channels"] = [self.override(x) if "device_type" not in x else {"name": x["name"], "device_type": x["device_type"]}
                                         for x in sub["channels"] if self.p(0.6)]
                        if self.p(0.2):
                            u["channels"].append(dict(self.reg(70), name="added"))
                    if self.p(0.3):
                        u["p1"] = r.choice([1, 2])
                    if self.p(0.2):
                        u["setup"] = [self.setup_item(80, conds=False)]
                    if self.p(0.2):
                        u["shift"] = 300
                    chs.append(u)
            elif self.p(0.45):
                chs.append(self.override(c))
        if self.p(0.3):
            for k in range(r.choice([1, 2])):
                c = self.channel(40 + k, True, conds=False)
                c["name"] = "Own %d" % k
                if self.p(0.3):
                    c["poll_interval"] = 33
                chs.append(c)
        if self.p(0.15):
            chs.append({"name": "Gone", "enabled": True})
        if self.p(0.3):
            r.shuffle(chs)
        if chs:
            d["channels"] = chs
        if t:
            for n in PARAMS:
                if self.p(0.5):
                    d[n] = r.choice([0, 1, 1, 2, 2, 3, 5])
                    if self.p(0.05):
                        d[n] = r.choice(["1", 1.5, 2.0])
        if self.p(0.2):
            d["setup"] = [self.setup_item(50 + k, conds=False) for k in range(r.choice([1, 2]))]
            if self.p(0.4) and t and t["device"].get("setup"):
                s = r.choice(t["device"]["setup"])
                if "address" in s:
                    d["setup"].append({k: v for k, v in s.items() if k != "condition"})
            if self.p(0.05):
                d["setup"][0].pop("address", None)
        if self.p(0.05):
            d["protocol"] = "modbus"
        return d

    def port(self, k, templates, nd, base):
        r = self.r
        p = {"port_type": "serial", "path": "/dev/ttyRS485-%d" % k}
        if self.p(0.3):
            p = {"port_type": r.choice(["modbus tcp", "tcp"]), "address": "192.168.0.%d" % k, "port": 502}
        if self.p(0.3):
            p["guard_interval_us"] = r.choice([500, 3000])
        if self.p(0.2):
            p["read_rate_limit_ms"] = r.choice([0, 700])
        if self.p(0.1):
            p["poll_interval"] = 60
        for x, vs in (("connection_timeout_ms", [100, 0, -1]), ("connection_max_fail_cycles", [1, 7, -1]), ("response_timeout_ms", [-1, 0, 300])):
            if self.p(0.2):
                p[x] = r.choice(vs)
        if self.p(0.08):
            p["enabled"] = self.p(0.4)
        p["devices"] = [self.device(base + i, templates) for i in range(nd)]
        return p

    def clashes(self):
        """Ports and devices that may be taken for one another"""
        r = self.r
        t = {"device_type": "t0", "device": {"name": "T", "id": r.choice(["dev", "a", "wb-modbus-0"]),
                                             "channels": [{"name": "A", "address": 1}]}}
        if self.p(0.3):
            t["device"].pop("id")
        protos = ["modbus"] * 4 + ["modbus_io"] * 3 + ["mercury230", "mercury230", "neva", "neva", "energomera_iec", "iec_mode_c",
                                                     "mercury200", "uniel", "pulsar", "milur", "ivtm", "lls"]
        mine = r.sample(protos, 3)
        seen = []
        ports = []
        for k in range(r.choice([1, 1, 2, 2, 3])):
            p = r.choice([{"port_type": "serial", "path": "/dev/tty%d" % k}, {"port_type": "tcp", "address": "10.0.0.%d" % k, "port": 502},
                          {"port_type": "modbus tcp", "address": "10.0.0.9", "port": 500 + k}])
            if ports and self.p(0.12):
                o = r.choice(ports)
                p = {x: o[x] for x in ("port_type", "path", "address", "port") if x in o}
                if "address" in p and self.p(0.5):
                    p["port_type"] = r.choice(["tcp", "modbus tcp"])
            if self.p(0.12):
                p["enabled"] = self.p(0.3)
            p["devices"] = []
            tcp = p["port_type"] == "modbus tcp"
            for i in range(r.choice([1, 2, 2, 3, 4])):
                d = {}
                if self.p(0.35):
                    d["device_type"] = "t0"
                    proto = "modbus"
                else:
                    proto = r.choice(mine if not tcp or self.p(0.03) else ["modbus", "modbus_io"])
                    if proto != "modbus" or self.p(0.5):
                        d["protocol"] = proto
                n = r.choice([1, 8, 16, 17]) if self.p(0.3) else 20 + 10 * k + i
                d["slave_id"] = r.choice([n, str(n), hex(n), "0x%03X" % n, "0%o" % n, " %d" % n])
                if seen and self.p(0.12):
                    d["slave_id"] = r.choice(seen)
                if proto == "modbus_io":
                    d["slave_id"] = "%s:%s" % (str(d["slave_id"]).split(":")[0], r.choice([1, 1, 2, "0x1", "0x2", 10]))
                elif ":" in str(d["slave_id"]) and proto != "modbus_io":
                    d["slave_id"] = str(d["slave_id"]).split(":")[0]
                if proto in ("mercury230", "neva", "energomera_iec", "iec_mode_c") and self.p(0.15):
                    d["slave_id"] = ""
                    if self.p(0.5):
                        d.pop("slave_id")
                if "slave_id" in d:
                    seen.append(d["slave_id"])
                if self.p(0.25):
                    d["id"] = r.choice(["x", "y", "dev_%d" % n, "a_1", "wb-modbus-0-%d" % r.choice([0, 1, 2]), "wb-modbus-1-0", "u%d" % n])
                if self.p(0.12):
                    d["enabled"] = self.p(0.3)
                p["devices"].append(d)
            ports.append(p)
        return {"t0.json": t}, {"ports": ports}

    def config(self):
        r = self.r
        ts = [self.template("t%d" % k) for k in range(r.choice([1, 1, 2]))]
        c = {"ports": []}
        base = 0
        for k in range(r.choice([1, 1, 2])):
            nd = r.choice([1, 1, 2, 3])
            c["ports"].append(self.port(k, ts, nd, base))
            base += nd
        if self.p(0.2):
            c["rate_limit"] = r.choice([1, 50, 1000])
        if self.p(0.3):
            c["max_unchanged_interval"] = r.choice([-1, 0, 1, 4, 5, 6, 600])
        return {t["device_type"] + ".json": t for t in ts}, c


# ---------------------------------------------------------------------------------------------------------------------
# the templates that come with the program
def uncomment(s):
    res, i, q = [], 0, False
    while i < len(s):
        ch = s[i]
        if q:
            res.append(ch)
            if ch == "\\":
                res.append(s[i + 1])
                i += 1
            elif ch == '"':
                q = False
        elif ch == '"':
            q = True
            res.append(ch)
        elif s.startswith("//", i):
            while i < len(s) and s[i] != "\n":
                i += 1
            continue
        elif s.startswith("/*", i):
            i = s.index("*/", i) + 2
            continue
        else:
            res.append(ch)
        i += 1
    return "".join(res)


def shipped(repo):
    """[(file, template)] for the Modbus devices"""
    res = []
    d = os.path.join(repo, "templates")
    try:
        import jinja2
        env = jinja2.Environment(loader=jinja2.FileSystemLoader(d))
    except ImportError:
        env = None
    for f in sorted(os.listdir(d)):
        if f.endswith(".json"):
            s = open(os.path.join(d, f), encoding="utf8").read()
        elif f.endswith(".json.jinja") and env:
            s = env.get_template(f).render()
        else:
            continue
        t = json.loads(uncomment(s))
        if t["device"].get("protocol", "modbus") == "modbus":
            res.append((f.replace(".jinja", ""), t))
    return res


def shipped_config(g, t):
    """A configuration that uses a template at random"""
    r = g.r
    d = {"device_type": t["device_type"], "slave_id": str(r.randrange(1, 247))}
    g.devprops(d, 0.05)
    chs = []
    ps = t["device"].get("parameters", [])
    items = [(p["id"], p) for p in ps] if isinstance(ps, list) else list(ps.items())
    for n, p in items:
        if n not in d and g.p(0.5):
            vs = p.get("enum") or [p.get("default", p.get("min", 1))]
            v = r.choice(vs)
            if isinstance(v, (int, float)) and not isinstance(v, bool) and not (
                    # some templates have values that the register cannot hold: they are refused
                    v < p.get("offset", 0) and p.get("format", "u16")[0] not in "sfd"):
                d[n] = v
    for c in t["device"].get("channels", []):
        if "oneOf" in c:
            if g.p(0.7):
                chs.append({"name": c["name"], "device_type": r.choice(c["oneOf"])})
        elif "device_type" in c:
            pass
        elif g.p(0.15):
            u = {k: v for k, v in g.override(c).items() if k not in ("device_type", "enum_titles")}
            chs.append(u)
    if chs:
        d["channels"] = chs
    return {"ports": [{"port_type": "serial", "path": "/dev/ttyX", "devices": [d]}]}


# ---------------------------------------------------------------------------------------------------------------------
# the whole way from the configuration to the topics
TAB = {"coil": 1, "discrete": 2, "holding": 3, "holding_multi": 3, "input": 4, "press_counter": 4}
UNITS = ["V", "A", "", "W"]


class Mqtt:
    def __init__(self, rnd, **o):
        self.r = rnd
        self.o = o

    def p(self, name, x):
        return self.r.random() < self.o.get(name, x)

    def word(self, fmt, tab):
        r = self.r
        if tab < 3:
            return [r.randrange(2)]
        if fmt in ("u32", "s32"):
            hi = r.choice([0, 0, 1, 300, 32767] + ([65535, 32768, 65534] if fmt == "s32" else []))
            return [hi, r.choice([0, 1, 7, 65535, 40000])]
        return [r.choice([0, 0, 1, 2, 3, 10, 300, 600, 32767, 32768, 65535])]

    def number(self, fmt, tab):
        r = self.r
        if tab < 3:
            return r.choice([0, 1])
        if fmt == "s16":
            return r.choice([0, 1, -1, 32767, -32768, 12, -300])
        if fmt == "u32":
            return r.choice([0, 1, 65535, 65536, 2147483647, 100000])
        if fmt == "s32":
            return r.choice([0, -1, 65536, -65536, 2147483647, -2147483648, 12345678])
        return r.choice([0, 1, 2, 10, 300, 600, 65535])

    def scenario(self, id):
        r = self.r
        conf = {"ports": [], "max_unchanged_interval": r.choice(self.o.get("mui", [-1, -1, 0, 5, 7, 3, 600]))}
        if self.p("nomui", 0.15):
            conf.pop("max_unchanged_interval")
        sids, slaves, acts = [], [], []
        free = r.sample(range(1, 248), 12)
        dur = r.choice(self.o.get("dur", [8, 15, 30])) * 1000000
        n = 0
        for k in range(r.choice([1, 1, 1, 2])):
            p = {"port_type": "serial", "path": "/dev/ttyV%d" % k, "devices": []}
            if self.p("maxfail", 0.2):
                p["connection_timeout_ms"] = r.choice([500, 3000])
                p["connection_max_fail_cycles"] = r.choice([1, 3])
            sids.append([])
            slaves.append([])
            for i in range(r.choice([1, 1, 2, 3])):
                sid = free.pop()
                d = {"slave_id": str(sid), "name": "Dev %d" % n, "id": "dev%d" % n, "channels": [],
                     "device_timeout_ms": r.choice([0, 1000, 3000]), "device_max_fail_cycles": r.choice([1, 2, 5]),
                     "read_rate_limit_ms": r.choice([20, 100, 400, 1500])}
                n += 1
                if self.p("range", 0.5):
                    d["max_read_registers"] = r.choice([2, 10, 60])
                if self.p("name", 0.2):
                    d.pop("name")
                    d.pop("id")
                mem = {}
                used = set()
                names = r.sample(["A", "B", "C", "D", "E", "F", "G", "H"], r.choice([1, 2, 4, 6]))
                chans = []
                for nm in names:
                    c, regs = self.channel(nm, used, mem)
                    d["channels"].append(c)
                    chans.append((c, regs))
                p["devices"].append(d)
                sids[-1].append(sid)
                slaves[-1].append({"sid": sid, "lat": r.choice([1000, 5000]), "mem": [[t, a, v] for (t, a), v in sorted(mem.items())]})
                self.acts(acts, dur, k, i, d, chans, d.get("id", "wb-modbus-%d-%d" % (k, i)))
            conf["ports"].append(p)
        if self.p("port", 0.1):
            t = r.randrange(dur)
            k = r.randrange(len(sids))
            acts.append({"t": t, "a": "failopen", "p": k, "v": True})
            for i in range(len(sids[k])):
                acts.append({"t": t, "a": "dead", "p": k, "d": i})
            t += r.randrange(1000000, 15000000)
            acts.append({"t": t, "a": "failopen", "p": k, "v": False})
            for i in range(len(sids[k])):
                acts.append({"t": t, "a": "live", "p": k, "d": i})
        acts.sort(key=lambda a: a["t"])
        return scenario(id, {}, conf, sids=sids, slaves=slaves, acts=acts, dur=dur, maxev=self.o.get("maxev", 900))

    def reg(self, used, mem, tn=None, fmt=None):
        r = self.r
        tn = tn or r.choice(["holding", "holding", "holding", "input", "coil", "discrete", "press_counter", "holding_multi"])
        tab = TAB[tn]
        c = {"reg_type": tn}
        f = "u8"
        if tab >= 3:
            f = fmt or (r.choice(["u16", "u16", "s16", "u32", "s32"]) if tn != "press_counter" else "u16")
            c["format"] = f
        w = 2 if f in ("u32", "s32") else 1
        while True:
            a = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 20, 21, 22, 100, 101, 300])
            if not any((tab, a + x) in used for x in range(w)):
                break
        c["address"] = a
        for x in range(w):
            used.add((tab, a + x))
        for x, v in enumerate(self.word(f, tab)):
            mem[tab, a + x] = v
        return c, (tab, a, f, tn)

    def channel(self, name, used, mem):
        r = self.r
        if self.p("several", 0.15):
            tn = r.choice(["holding", "input"])
            rs = [self.reg(used, mem, tn) for _ in range(r.choice([2, 3]))]
            c = {"name": name, "consists_of": [x[0] for x in rs], "type": "text"}
            regs = [x[1] for x in rs]
        else:
            tn = None
            kind = r.choice(["", "", "", "switch", "onoff", "range", "pushbutton", "wo"])
            if self.p("counters", 0.1):
                kind, tn = "", "press_counter"
            if kind in ("switch", "onoff", "pushbutton", "wo"):
                tn = r.choice(["coil", "holding"])
            c, g = self.reg(used, mem, tn, "u16" if kind == "onoff" else None)
            c["name"] = name
            regs = [g]
            if kind == "switch":
                c["type"] = "switch"
            elif kind == "onoff" and tn == "holding":
                c["type"] = r.choice(["switch", "value"])
                on, off = r.sample([0, 1, 2, 10, 300, 600], 2)
                if self.p("both", 0.8):
                    c["off_value"] = off
                c["on_value"] = on
            elif kind == "range":
                c["type"] = r.choice(["range", "dimmer"])
            elif kind == "pushbutton":
                c["type"] = "pushbutton"
            elif kind == "wo":
                c["type"] = "wo-switch"
        if self.p("ro", 0.15) and c.get("type") not in ("pushbutton", "wo-switch"):
            c["readonly"] = True
            for x in c.get("consists_of", []):
                x["readonly"] = True
        for k, vs in (("units", UNITS), ("max", [100, 255.5]), ("min", [-5, 0, 1]), ("round_to", [1])):
            if self.p("props", 0.15) and not (k == "round_to" and ("consists_of" in c or regs[0][0] < 3)):
                c[k] = r.choice(vs)
        if self.p("disabled", 0.05):
            c["enabled"] = False
        return c, regs

    def acts(self, acts, dur, k, i, d, chans, dev):
        r = self.r
        allregs = [g for c, regs in chans for g in regs]
        for _ in range(r.choice([2, 8, 20])):
            tab, a, f, tn = r.choice(allregs)
            acts.append({"t": r.randrange(dur), "a": "mem", "p": k, "d": i, "tab": tab, "ad": a,
                         "v": [0] if tn == "press_counter" and r.random() < 0.6 else self.word(f, tab)})
        can = [x for x in chans if not x[0].get("readonly") and x[1][0][3] in ("holding", "holding_multi", "coil")]
        if can and self.p("sets", 0.75):
            for _ in range(r.choice([1, 3, 8])):
                c, regs = r.choice(can)
                t = r.randrange(500000, dur - 500000)
                for _ in range(r.choice([1, 1, 2, 4])):
                    acts.append({"t": t, "a": "on", "dev": dev, "ctl": c["name"], **self.items(c, regs)})
                    t += r.choice([0, 100, 3000, 20000, 300000])
                    if t >= dur:
                        break
        if self.p("faults", 0.4):
            for _ in range(r.choice([1, 3])):
                acts.append({"t": r.randrange(dur), "a": "fault", "p": k, "d": i, "n": r.choice([1, 2, 6]), "kind": r.choice(["lost", "crc", "to"]),
                             "c": 50, "wr": r.random() < 0.4})
        if self.p("dead", 0.35):
            t = r.randrange(dur)
            for _ in range(r.choice([1, 2])):
                acts.append({"t": t, "a": "dead", "p": k, "d": i})
                t += r.randrange(100000, 10000000)
                acts.append({"t": t, "a": "live", "p": k, "d": i})
                if self.p("zero", 0.5):
                    for tab, a, f, tn in allregs:
                        if tn == "press_counter":
                            acts.append({"t": t, "a": "mem", "p": k, "d": i, "tab": tab, "ad": a, "v": [0]})
                t += r.randrange(1000000, 8000000)

    def items(self, c, regs):
        r = self.r
        res = []
        for tab, a, f, tn in regs:
            n = self.number(f, tab)
            if ("on_value" in c or "off_value" in c) and r.random() < 0.7:
                n = r.choice([0, 1])
            if r.random() < 0.07:
                res.append({"s": r.choice(["oops", "", "1x", "--1"]), "ok": False, "n": 0})
            else:
                res.append({"s": str(n), "ok": True, "n": n})
        x = ";".join(i["s"] for i in res)
        if r.random() < 0.05:
            # not as many items as registers
            res.append({"s": "1", "ok": True, "n": 1})
            x += ";1"
        return {"x": x, "items": res}
