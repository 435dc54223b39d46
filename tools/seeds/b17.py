ID = 'switch-values-swapped-twice'
PROP = 'P18'
EDITS = [('src/serial_port_driver.cpp', '            } else if (!channel->OffValue.empty() && valueItems[i] == "0") {', '            }\n            if (!channel->OffValue.empty() && valueToSet == "0") {')]
NEEDS = 'a switch whose on_value is 0, switched on by the user'
BREAKS = 'the off value is written instead of the on value'
DRV = "config"
#DEMO
# import demorun, json, os
# def conf(chs, dev={}, **top):
#     d = {"slave_id": "7", "id": "dev", "name": "Dev", "channels": chs}
#     d.update(dev)
#     c = {"ports": [{"port_type": "serial", "path": "/dev/x", "devices": [d]}]}
#     c.update(top)
#     return json.dumps(c)
# sc = {"id": "x", "files": {}, "conf": conf([{"name": "S", "reg_type": "holding", "address": 5, "type": "switch", "on_value": 0, "off_value": 3}]),
#       "slaves": [[{"sid": 7, "lat": 1000, "mem": [[3, 5, 3]]}]], "dur": 6000000, "maxev": 2000,
#       "acts": [{"t": 3000000, "a": "on", "dev": "dev", "ctl": "S", "x": "1"}]}
# def judge(ev, s):
#     wr = [e["d"] for e in ev if e["o"] == "req" and e["f"] == 6]
#     if wr != [[0]]:
#         return "written: %s" % wr
# demorun.run("config", [sc], judge, [os.getcwd()])
#END
