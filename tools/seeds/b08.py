ID = "crc-table-entry"
PROP = "P23"
DRV = "pure"
EDITS = [("src/crc16.cpp", "0x99, 0x59, 0x58, 0x98, 0x88, 0x48, 0x49, 0x89, 0x4b, 0x8b,", "0x99, 0x59, 0x58, 0x98, 0x88, 0x48, 0x49, 0x88, 0x4b, 0x8b,")]
NEEDS = "a frame whose checksum passes through one entry of the table"
BREAKS = "checksums of some frames are wrong"
#DEMO
# import demorun
# def crc(d):
#     c = 0xffff
#     for b in d:
#         c ^= b
#         for _ in range(8):
#             c = (c >> 1) ^ 0xa001 if c & 1 else c >> 1
#     return (c & 255) * 256 + (c >> 8)
# items = [{"o": "bin", "f": "crc", "d": [1, 3, k, 255 - k]} for k in range(256)]
# def judge(ev, s):
#     for e in ev:
#         if e["o"] == "bin" and e["r"] != crc(e["d"]):
#             return "checksum of %s is %s" % (e["d"], e["r"])
# demorun.run("pure", [{"id": "x", "items": items}], judge)
#END
