ID = 'error-of-the-last-register'
PROP = 'P18'
EDITS = [('src/serial_port_driver.cpp', '        errorState |= r->GetErrorState();', '        if (errorState.none() || r->GetErrorState().any()) {\n            errorState = r->GetErrorState();\n        }')]
NEEDS = 'a channel of several registers: writing the first failed, reading the second fails'
BREAKS = 'only one of the two errors is shown'
DRV = "config"
#DEMO
# import demorun, json, os
# def conf(chs, dev={}, **top):
#     d = {"slave_id": "7", "id": "dev", "name": "Dev", "channels": chs}
#     d.update(dev)
#     c = {"ports": [{"port_type": "serial", "path": "/dev/x", "devices": [d]}]}
#     c.update(top)
#     return json.dumps(c)
# sc = {"id": "x", "files": {}, "conf": conf([{"name": "S", "type": "text", "consists_of": [{"reg_type": "holding", "address": 5}, {"reg_type": "holding", "address": 50}]}],
#                                           {"read_rate_limit_ms": 500}),
#       "slaves": [[{"sid": 7, "lat": 1000, "mem": [[3, 5, 3], [3, 50, 4]]}]], "dur": 10000000, "maxev": 4000,
#       "acts": [{"t": 2900000, "a": "fault", "p": 0, "d": 0, "n": 100, "kind": "exc", "c": 3, "wr": True, "ad": 5},
#                {"t": 3000000, "a": "on", "dev": "dev", "ctl": "S", "x": "7;8"},
#                {"t": 4900000, "a": "fault", "p": 0, "d": 0, "n": 100, "kind": "crc", "c": 50, "ad": 50}]}
# def judge(ev, s):
#     es = {e["e"] for e in ev if e["o"] == "mq" and e["k"] != "d"}
#     if "rw" not in es:
#         return "errors shown: %s" % es
# demorun.run("config", [sc], judge, [os.getcwd()])
#END
