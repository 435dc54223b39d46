ID = 'address-compared-with-the-last'
PROP = 'P21'
EDITS = [('src/serial_config.cpp', '    for (auto dev: Devices) {\n        if (dev->Device->Protocol() == device->Device->Protocol()) {', '    for (auto it = Devices.rbegin(); it != Devices.rend(); ++it) {\n        auto dev = *it;\n        if (dev->Device->Protocol() != device->Device->Protocol()) {\n            break;\n        }\n        if (dev->Device->Protocol() == device->Device->Protocol()) {')]
NEEDS = 'two devices with one address on a port and between them a device of another protocol'
BREAKS = 'both devices are polled as if they were different'
DRV = "config"
#DEMO
# import demorun, json, os
# def conf(chs, dev={}, **top):
#     d = {"slave_id": "7", "id": "dev", "name": "Dev", "channels": chs}
#     d.update(dev)
#     c = {"ports": [{"port_type": "serial", "path": "/dev/x", "devices": [d]}]}
#     c.update(top)
#     return json.dumps(c)
# ds = [{"slave_id": "7", "id": "a", "name": "A", "channels": [{"name": "A", "address": 1}]},
#       {"slave_id": "8", "id": "b", "name": "B", "protocol": "mercury200", "channels": []},
#       {"slave_id": "0x07", "id": "c", "name": "C", "channels": [{"name": "A", "address": 1}]}]
# c = json.dumps({"ports": [{"port_type": "serial", "path": "/dev/tty1", "devices": ds}]})
# def judge(ev, s):
#     e = [e for e in ev if e["o"] == "cfg"][0]
#     if e["ok"]:
#         return "accepted"
# demorun.run("config", [{"id": "x", "files": {}, "conf": c}], judge, [os.getcwd()])
#END
