ID = 'default-of-the-last-declaration'
PROP = 'P20'
EDITS = [('src/config_merge_template.cpp', '        if (!mergedConfig.isMember(id) && item.isMember("default")) {', '        if (!deviceConfigJson.isMember(id) && item.isMember("default")) {')]
NEEDS = 'a template with two declarations of one parameter with different defaults, and conditions on it'
BREAKS = 'channels appear or disappear by the default of the declaration that comes last'
DRV = "config"
#DEMO
# import demorun, json, os
# def conf(chs, dev={}, **top):
#     d = {"slave_id": "7", "id": "dev", "name": "Dev", "channels": chs}
#     d.update(dev)
#     c = {"ports": [{"port_type": "serial", "path": "/dev/x", "devices": [d]}]}
#     c.update(top)
#     return json.dumps(c)
# T = {"device_type": "t", "device": {"name": "T", "id": "t", "parameters": [
#       {"id": "p", "title": "p", "address": 1, "enum": [0, 1], "default": 0, "condition": "q==0"},
#       {"id": "p", "title": "p", "address": 1, "enum": [0, 1], "default": 1, "condition": "q==1"},
#       {"id": "q", "title": "q", "address": 2, "enum": [0, 1], "default": 0}],
#      "channels": [{"name": "A", "reg_type": "input", "address": 1, "condition": "p==0"}, {"name": "B", "reg_type": "input", "address": 2, "condition": "p==1"}]}}
# sc = {"id": "x", "files": {"t.json": json.dumps(T)}, "conf": conf([], {"device_type": "t"})}
# def judge(ev, s):
#     e = [e for e in ev if e["o"] == "cfg"][0]
#     chs = [c["id"] for c in e["ports"][0]["devs"][0]["ch"]]
#     if chs != ["A"]:
#         return "channels: %s" % chs
# demorun.run("config", [sc], judge, [os.getcwd()])
#END
