ID = 'ids-unique-within-a-port'
PROP = 'P21'
EDITS = [('src/serial_config.cpp', '    std::unordered_set<std::string> ids;\n    for (const auto& port: handlerConfig.PortConfigs) {\n        for (const auto& device: port->Devices) {', '    for (const auto& port: handlerConfig.PortConfigs) {\n        std::unordered_set<std::string> ids;\n        for (const auto& device: port->Devices) {')]
NEEDS = 'devices with one MQTT id on two ports'
BREAKS = 'two devices share their topics'
DRV = "config"
#DEMO
# import demorun, json, os
# def conf(chs, dev={}, **top):
#     d = {"slave_id": "7", "id": "dev", "name": "Dev", "channels": chs}
#     d.update(dev)
#     c = {"ports": [{"port_type": "serial", "path": "/dev/x", "devices": [d]}]}
#     c.update(top)
#     return json.dumps(c)
# c = json.dumps({"ports": [{"port_type": "serial", "path": "/dev/tty%d" % k, "devices": [{"slave_id": "7", "id": "dev", "name": "Dev", "channels": [{"name": "A", "address": 1}]}]} for k in (1, 2)]})
# def judge(ev, s):
#     e = [e for e in ev if e["o"] == "cfg"][0]
#     if e["ok"]:
#         return "accepted"
# demorun.run("config", [{"id": "x", "files": {}, "conf": c}], judge, [os.getcwd()])
#END
