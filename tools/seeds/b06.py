PROP = "P06"
DRV = "pure"
EDITS = [("src/register.cpp", """        case S24: {
            uint32_t v = val.Get<uint64_t>() & 0xffffff;
            if (v & 0x800000)""", """        case S24: {
            uint32_t v = val.Get<uint64_t>() & 0xffffff;
            if (v > 0x800000)""")]
ID = "smallest-24-bit-number"
NEEDS = "a signed 24 bit register holds its smallest value"
BREAKS = "-8388608 is published as 8388608"
#DEMO
# import demorun
# one = {"m": 1, "e": 0}
# zero = {"m": 0, "e": 0}
# items = [{"o": "codec", "fmt": "S24", "sc": one, "of": zero, "rt": zero, "dir": "dec", "raw": [0, 0, v >> 16, v & 65535]}
#          for v in (0, 1, 0x7fffff, 0x800000, 0x800001, 0xffffff)]
# def judge(ev, s):
#     for e in ev:
#         if e["o"] == "codec":
#             v = e["raw"][2] * 65536 + e["raw"][3]
#             if "".join(map(chr, e["text"])) != str(v - (1 << 24) if v >> 23 else v):
#                 return "%x is shown as %s" % (v, "".join(map(chr, e["text"])))
# demorun.run("pure", [{"id": "x", "items": items}], judge)
#END
