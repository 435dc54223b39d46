"""Inputs for the parts of the code that compute without devices (driver pure, specification pure/PureTrace)."""
from decimal import Decimal


def codes(s):
    return [ord(c) for c in s] if isinstance(s, str) else list(s)


def crc(d):
    c = 0xffff
    for b in d:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ 0xa001 if c & 1 else c >> 1
    return [c & 255, c >> 8]


def words(v):
    return [(v >> s) & 0xffff for s in (48, 32, 16, 0)]


# ---- conditions
NAMES = ["a", "b", "a1", "in_mode", "Z", "isDefined", "isdefined", "p_2_x"]
OPS = ["==", "!=", "<", ">", "<=", ">=", "&&", "||"]


def number(rnd):
    return str(rnd.choice([0, 1, 1, 2, 3, 10, -1, -2, 7, 100, 65535, -32768, 2147483647, -2147483647, rnd.randrange(-9, 10)]))


def operand(rnd, depth):
    x = rnd.random()
    if depth > 0 and x < 0.3:
        return "(" + expr(rnd, depth - 1) + ")"
    if x < 0.45:
        return "isDefined(%s)" % rnd.choice(NAMES[:5])
    if x < 0.65:
        return number(rnd)
    return rnd.choice(NAMES[:6] if x < 0.97 else NAMES)


def expr(rnd, depth):
    n = rnd.choice([1, 1, 2, 2, 3, 4, 5])
    if rnd.random() < 0.5:
        # as people write them
        return rnd.choice(["&&", "||"]).join(
            "%s%s%s" % (rnd.choice(NAMES[:5]), rnd.choice(OPS[:6]), number(rnd)) if rnd.random() < 0.8
            else operand(rnd, depth) for _ in range(n))
    s = operand(rnd, depth)
    for _ in range(n - 1):
        s += rnd.choice(OPS) + operand(rnd, depth)
    return s


def spoil(rnd, s):
    toks = ["=", "!", "&", "|", "(", ")", " ", "-", "1", "a", "_", "==", "isDefined(", "isDefined", "<", "$", "\t", "2a", "é", ","]
    for _ in range(rnd.choice([1, 1, 2])):
        i = rnd.randrange(len(s) + 1)
        if rnd.random() < 0.4 and s:
            s = s[:i] + s[i + rnd.choice([1, 1, 2]):]
        else:
            s = s[:i] + rnd.choice(toks) + s[i:]
    return s


def params(rnd, s):
    res = []
    for n in NAMES[:5]:
        if rnd.random() < 0.6:
            import re
            nums = [int(x) for x in re.findall(r"-?\d+", s) if abs(int(x)) < 2**31 - 1] or [1]
            res.append([codes(n), rnd.choice([0, 1, 2, -1, rnd.choice(nums), rnd.choice(nums), rnd.choice(nums) + 1])])
    return res


def int_ok(s):
    # numbers beyond 32 bits are left out, and characters beyond ASCII
    import re
    return all(len(x) < 10 or abs(int(x)) < 2**31 for x in re.findall(r"\d+", s)) and all(ord(c) < 128 for c in s)


def exprs(rnd, n):
    items = []
    while len(items) < n:
        s = expr(rnd, 3)
        if rnd.random() < 0.35:
            s = spoil(rnd, s)
        if len(s) > 120 or not int_ok(s):
            continue
        items.append({"o": "expr", "s": codes(s), "ps": [params(rnd, s) for _ in range(rnd.choice([1, 4, 8]))]})
    return {"id": "expr", "items": items}


# ---- values
FMT = {"U8": 8, "S8": 8, "U16": 16, "S16": 16, "U24": 24, "S24": 24, "U32": 32, "S32": 32, "U64": 64, "S64": 64,
       "BCD8": 8, "BCD16": 16, "BCD24": 24, "BCD32": 32}
SCALES = [(1, 0), (1, -1), (1, -2), (1, -3), (5, -1), (25, -2), (2, 0), (10, 0), (100, 0), (-1, 0), (-1, -1), (3, 0), (15, -2),
          (125, -3), (36, 2), (1, -6), (75, -3), (1, 3), (7, -1)]
OFFSETS = [(0, 0), (0, 0), (0, 0), (-40, 0), (40, 0), (5, -1), (-273, 0), (-27315, -2), (1, 0), (1000, 0), (-1, -1), (12345, -3)]
ROUNDS = [(0, 0), (0, 0), (0, 0), (1, -1), (1, -2), (1, 0), (5, 0), (5, -1), (1, -3), (2, 0), (10, 0), (1, -4)]


def dec(p):
    return Decimal(p[0]).scaleb(p[1])


def jdec(p):
    return {"m": p[0], "e": p[1]}


def spell(rnd, d):
    """A way of writing the number d."""
    s = format(d, "f")
    if "." in s and rnd.random() < 0.8:
        s = s.rstrip("0").rstrip(".")
    x = rnd.random()
    if x < 0.08 and "." not in s:
        s += ".0"
    elif x < 0.12 and not s.startswith("-"):
        s = "+" + s
    elif x < 0.16:
        s = rnd.choice(["%se0", "%sE0", "%se+0"]) % s
    elif x < 0.2 and "." in s:
        s += "0"
    elif x < 0.24 and "." not in s and s not in ("0", "-0"):
        s = s + "0e-1"
    elif x < 0.27:
        s = s.replace("-0.", "-.") if s.startswith("-0.") else s[1:] if s.startswith("0.") else s
    elif x < 0.3 and "." not in s and not s.startswith("-"):
        s = "0x%x" % int(s)
    elif x < 0.33 and "." not in s and not s.startswith("-"):
        s = "0X%X" % int(s)
    elif x < 0.36 and not s.startswith("-"):
        s = "0" + s
    return s


GARBAGE = ["", "abc", "12abc", "1,5", "--3", "1 2", "0x", "0xg1", "1e", "e5", ".", "-", "+", "1.2.3", "true", "5%", "1..2", "0x1g", "1e+", "12 "]


def raw_int(rnd, f):
    w = FMT[f]
    if f.startswith("BCD"):
        return int("".join(str(rnd.choice([0, 9, rnd.randrange(10)])) for _ in range(w // 4)), 16)
    return rnd.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, rnd.getrandbits(w), rnd.getrandbits(w),
                       rnd.getrandbits(min(w, rnd.choice([4, 7, 10, 15]))), (1 << w) - 1 - rnd.getrandbits(min(w, 9))])


def num(f, raw):
    w = FMT[f]
    if f.startswith("BCD"):
        return int("%x" % raw)
    return raw - (1 << w) if f[0] == "S" and raw >> (w - 1) else raw


def float_raw(rnd, f):
    import struct
    x = rnd.random()
    if x < 0.5:
        v = rnd.randrange(-2000, 2000) / float(1 << rnd.randrange(0, 8))
    elif x < 0.8:
        v = rnd.choice([0.0, 1.0, -1.0, 0.1, 230.5, 49.97, -0.25, 1e6, 123456.0, 1e-3, 3.14159274, 16777216.0, 1e10, -1e-5])
    else:
        v = rnd.uniform(-1, 1) * 10 ** rnd.randrange(-6, 9)
    return int.from_bytes(struct.pack(">f" if f == "Float" else ">d", v), "big")


def codecs(rnd, n):
    items = []
    while len(items) < n:
        f = rnd.choice(list(FMT) + ["Float", "Double", "Float", "Double", "Char8", "String", "String8"])
        sc, of, rt = (1, 0), (0, 0), (0, 0)
        if rnd.random() < 0.7:
            sc = rnd.choice(SCALES)
        if rnd.random() < 0.4:
            of = rnd.choice(OFFSETS)
        if rnd.random() < 0.25:
            rt = rnd.choice(ROUNDS)
        it = {"o": "codec", "fmt": f, "sc": jdec(sc), "of": jdec(of), "rt": jdec(rt), "dir": rnd.choice(["dec", "rt", "rt", "enc", "enc"])}
        if f in ("String", "String8"):
            s = [rnd.randrange(1, 256) for _ in range(rnd.randrange(0, 12))]
            it["text" if it["dir"] == "enc" else "raw"] = s
        elif f == "Char8":
            if it["dir"] == "enc":
                it["text"] = [rnd.randrange(1, 256) for _ in range(rnd.randrange(0, 3))]
            else:
                it["raw"] = words(rnd.randrange(1, 256))
        elif it["dir"] != "enc":
            it["raw"] = words(float_raw(rnd, f) if f in ("Float", "Double") else raw_int(rnd, f))
        elif rnd.random() < 0.06:
            it["text"] = codes(rnd.choice(GARBAGE))
        elif f in ("Float", "Double"):
            d = Decimal(rnd.randrange(-10**6, 10**6)).scaleb(rnd.choice([0, -1, -2, -3, 1]))
            it["text"] = codes(spell(rnd, d))
        else:
            d = dec(sc) * num(f, raw_int(rnd, f)) + dec(of)
            if rnd.random() < 0.4:
                d += dec(sc) * rnd.choice([Decimal("0.3"), Decimal("-0.4"), Decimal("0.25"), Decimal("0.1"), Decimal("-0.05")])
            it["text"] = codes(spell(rnd, d))
        items.append(it)
    return {"id": "codec", "items": items}


# ---- versions, topics, bytes
def version(rnd):
    s = ".".join(str(rnd.choice([0, 1, 1, 2, 3, 9, 10, 11, 100, 127, 128, 129, 255, 1000, rnd.randrange(300)]))
                 for _ in range(rnd.choice([1, 2, 3, 3, 3, 4])))
    x = rnd.random()
    if x < 0.3:
        s += "-rc%d" % rnd.choice([0, 1, 2, 9, 10, 127, 128, 129, 200, rnd.randrange(1000)])
    elif x < 0.5:
        s += "+wb%d" % rnd.choice([0, 1, 2, 9, 10, 127, 128, 200])
    elif x < 0.55:
        s += ".0"
    return s


def odd_version(rnd):
    return rnd.choice(["", ".", "1.", "1..2", ".1", "a.b", "1.2.3-rc", "1.2.3-rc1.4", "1.2-rc1", "1.2+wb1.5", "-rc1", "1.02.3", "v1.2", "1.2.3-rc01",
                       "99999999999.1", "1.2147483648", "4294967296.0", "1.2.3-rc99999999999", "1.2.3+wb4294967296", "1.2.3-rc2147483648",
                       "12345678901234567890123", "1.x.3", "1.2.3-rcx", "1.2.3 "])


def near(rnd, s):
    x = rnd.random()
    if x < 0.2:
        return s
    if x < 0.4:
        return s.split("-")[0].split("+")[0]
    if x < 0.6:
        return s.split("-")[0].split("+")[0] + rnd.choice(["-rc1", "-rc10", "-rc200", "+wb1", ".0", ".1", "-rc128", "+wb0"])
    p = s.split(".")
    i = rnd.randrange(len(p))
    p[i] = rnd.choice(["0", "1", "2", "10", p[i] + "0"]) if p[i].isdigit() else p[i]
    return ".".join(p)


def texts(rnd, n):
    items = []
    for _ in range(n):
        a = version(rnd) if rnd.random() < 0.85 else odd_version(rnd)
        b = near(rnd, a) if rnd.random() < 0.6 else version(rnd) if rnd.random() < 0.8 else odd_version(rnd)
        if len(a) > 24 or len(b) > 24:
            continue
        # numbers up to 62 bits
        import re
        if any(len(x) > 18 for x in re.findall(r"\d+", a + " " + b)):
            # only that they are compared at all
            items.append({"o": "ver", "a": codes(a), "b": []})
            items.append({"o": "ver", "a": codes("0"), "b": codes(a)})
            continue
        items.append({"o": "ver", "a": codes(a), "b": codes(b)})
        items.append({"o": "ver", "a": codes(b), "b": codes(a)})
    for _ in range(n // 4):
        items.append({"o": "topic", "s": [rnd.choice([rnd.randrange(1, 256), ord(rnd.choice("'\"/+$# ab_|"))])
                                          for _ in range(rnd.randrange(0, 12))]})
    return {"id": "text", "items": items}


RULES = [[[0xc0, [0xdb, 0xdc]], [0xdb, [0xdb, 0xdd]]],
         [[0x10, [0x7d, 0x30]], [0x7d, [0x7d, 0x5d]], [0x7e, [0x7d, 0x5e]]],
         [[1, [2, 3, 4]], [2, [2, 2, 2]]]]


def bins(rnd, n):
    items = []
    for _ in range(n):
        f = rnd.choice(["get", "getbe", "from", "frombe", "put", "putbe", "mask", "stuff", "unstuff", "w2", "crc", "bcd2int", "int2bcd", "bcdarr"])
        it = {"o": "bin", "f": f, "d": []}
        v = rnd.choice([rnd.getrandbits(64), rnd.getrandbits(64), (1 << 64) - 1, 1 << 63, rnd.getrandbits(20)])
        if f in ("get", "getbe"):
            it["d"] = [rnd.choice([0, 255, 128, 127, rnd.randrange(256)]) for _ in range(rnd.randrange(0, 9))]
        elif f in ("from", "frombe"):
            it["d"] = [rnd.choice([0, 255, 128, 127, rnd.randrange(256)]) for _ in range(rnd.choice([1, 2, 4, 8]))]
        elif f in ("put", "putbe"):
            it["v"] = words(v)
            it["n"] = rnd.randrange(1, 9)
        elif f == "mask":
            it["n"] = rnd.choice([0, 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 255, rnd.randrange(65)])
        elif f in ("stuff", "unstuff"):
            it["rules"] = rnd.choice(RULES)
            special = [b for r in it["rules"] for b in [r[0]] + r[1]]
            it["d"] = [rnd.choice(special) if rnd.random() < 0.5 else rnd.randrange(256) for _ in range(rnd.randrange(0, 12))]
            if f == "unstuff":
                if rnd.random() < 0.7:
                    it["d"] = [x for b in it["d"] for x in next((r[1] for r in it["rules"] if r[0] == b), [b])]
                if len(it["d"]) > 20:
                    continue
        elif f == "w2":
            it["n"] = rnd.choice([0, 255, 256, 65535, rnd.randrange(65536)])
        elif f == "crc":
            it["d"] = [rnd.randrange(256) for _ in range(rnd.randrange(0, 40))]
        else:
            it["n"] = rnd.choice([1, 2, 3, 4])
            if f == "bcd2int":
                it["v"] = words(int("".join(str(rnd.choice([0, 9, rnd.randrange(10)])) for _ in range(2 * it["n"])), 16))
            else:
                it["v"] = words(rnd.choice([0, 10 ** (2 * it["n"]) - 1, rnd.randrange(10 ** (2 * it["n"]))]))
        items.append(it)
    return {"id": "bin", "items": items}


# ---- frames
def frames(rnd, n, tcp):
    items = []
    tid = 0
    while len(items) < n:
        fn = rnd.choice([1, 2, 3, 3, 4, 4, 5, 6, 6, 15, 16, 16, 23])
        cnt = rnd.choice([1, 1, 2, 3, 8, 9, 16, 17, rnd.randrange(1, 125)])
        it = {"o": "frame", "tcp": tcp, "ff": rnd.random() < 0.2, "fn": fn, "sid": rnd.choice([1, 2, 17, 247]),
              "a": rnd.choice([0, 1, 255, 256, 65535, rnd.randrange(65536)]), "n": cnt, "wa": rnd.randrange(65536), "wn": 0, "d": []}
        size = {5: 2, 6: 2, 15: (cnt + 7) // 8, 16: 2 * cnt}.get(fn, 0)
        if fn == 23:
            it["wn"] = rnd.randrange(1, 10)
            size = 2 * it["wn"]
        bad = rnd.random() < 0.04
        if bad and fn not in (1, 2, 3, 4):
            size = max(0, size + rnd.choice([-1, 1, 2, -2]))
        it["d"] = [rnd.randrange(256) for _ in range(size)]
        made = not (bad and fn not in (1, 2, 3, 4))
        it["rx"] = []
        if made:
            tid += 1
        nbytes = (cnt + 7) // 8 if fn in (1, 2) else 2 * cnt
        good = [fn, nbytes] + [rnd.randrange(256) for _ in range(nbytes)] if fn in (1, 2, 3, 4, 23) else [fn, it["a"] >> 8, it["a"] & 255, 0, cnt]
        x = rnd.random()
        pdu = list(good)
        kind = "ok"
        if x < 0.15:
            pdu = [fn | 128, rnd.choice([1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 17, 255, 0])]
        elif x < 0.25:
            pdu = [rnd.choice([3, 4, 6, 16, 0x46, fn ^ 1, fn ^ 64]) | rnd.choice([0, 0, 128])] + good[1:]
        elif x < 0.33 and len(pdu) > 2:
            pdu = pdu[:rnd.randrange(0, len(pdu))]
        elif x < 0.4:
            pdu = pdu + [rnd.randrange(256) for _ in range(rnd.randrange(1, 4))]
        elif x < 0.45 and fn in (1, 2, 3, 4, 23):
            pdu[1] = (pdu[1] + rnd.choice([-1, 1, 2, -2])) % 256
        elif x < 0.48 and fn in (3, 4) and cnt > 1:
            # fewer registers than asked for
            k = rnd.randrange(1, cnt)
            pdu = [fn, 2 * k] + pdu[2:2 + 2 * k]
        sid = it["sid"] if rnd.random() < 0.9 else rnd.choice([0, it["sid"] ^ 1, 255])
        if not tcp:
            f = [sid] + pdu
            f += crc(f)
            y = rnd.random()
            if y < 0.25:
                for _ in range(rnd.choice([1, 1, 2, 3])):
                    i = rnd.randrange(len(f))
                    f[i] ^= 1 << rnd.randrange(8)
            elif y < 0.29:
                f[-1], f[-2] = f[-2], f[-1]
            elif y < 0.33:
                f = f[:rnd.randrange(0, len(f))]
            elif y < 0.37:
                f = [rnd.randrange(256)] + f
            elif y < 0.4:
                f = f + [rnd.randrange(256)]
            elif y < 0.42:
                # the answer is fine but the checksum is that of nothing, zero, ones
                f[-2:] = rnd.choice([[0, 0], [255, 255]])
            it["rx"] = [f] if f else []
            if rnd.random() < 0.08 and it["rx"]:
                it["rx"].append([rnd.randrange(256)])
            if rnd.random() < 0.04:
                it["rx"] = []
        else:
            def frame(t, s, p):
                return [t >> 8, t & 255, 0, 0, (len(p) + 1) >> 8, (len(p) + 1) & 255, s] + p
            fs = []
            for _ in range(rnd.choice([0, 0, 0, 1, 2, 5])):
                fs.append(frame(rnd.choice([tid - 1, tid + 1, tid ^ 256, tid ^ 128, 0, 65535, (tid & 255) << 8]) & 65535, rnd.choice([it["sid"], 3]), good))
            fs = [f for f in fs if f[:2] != [tid >> 8, tid & 255]]
            if rnd.random() < 0.9:
                fs.append(frame(tid, sid, pdu))
            y = rnd.random()
            if y < 0.1 and fs:
                i = rnd.randrange(len(fs))
                fs[i][5] = (fs[i][5] + rnd.choice([1, -1, 5])) % 256
            elif y < 0.15 and fs:
                fs[-1] = fs[-1][:rnd.randrange(len(fs[-1]))]
            elif y < 0.2 and fs:
                fs[-1][4:6] = [0, 0]
            if rnd.random() < 0.5:
                it["rx"] = [f for f in fs if f]
            else:
                it["rx"] = [[b for f in fs for b in f]] if fs and sum(fs, []) else []
        items.append(it)
    return {"id": "frame-%s" % ("tcp" if tcp else "rtu"), "items": items}
