ID = 'override-hits-one-of-two'
PROP = 'P20'
EDITS = [('src/config_merge_template.cpp', '        channelNames[channelsFromTemplate[i]["name"].asString()].push_back(i);', '        auto& indexes = channelNames[channelsFromTemplate[i]["name"].asString()];\n        if (indexes.empty() || !channelsFromTemplate[i].isMember("condition")) {\n            indexes.push_back(i);\n        }')]
NEEDS = "a template with two channels of one name and different conditions, the second one in use, and user's settings for it"
BREAKS = "the user's settings are lost"
DRV = "config"
#DEMO
# import demorun, json, os
# def conf(chs, dev={}, **top):
#     d = {"slave_id": "7", "id": "dev", "name": "Dev", "channels": chs}
#     d.update(dev)
#     c = {"ports": [{"port_type": "serial", "path": "/dev/x", "devices": [d]}]}
#     c.update(top)
#     return json.dumps(c)
# T = {"device_type": "t", "device": {"name": "T", "id": "t", "parameters": {"p": {"title": "p", "address": 1, "enum": [0, 1], "default": 0}},
#      "channels": [{"name": "A", "reg_type": "input", "address": 1, "condition": "p==0"}, {"name": "A", "reg_type": "input", "address": 2, "condition": "p==1"}]}}
# sc = {"id": "x", "files": {"t.json": json.dumps(T)}, "conf": conf([{"name": "A", "enabled": False}], {"device_type": "t", "p": 1})}
# def judge(ev, s):
#     e = [e for e in ev if e["o"] == "cfg"][0]
#     chs = e["ports"][0]["devs"][0]["ch"]
#     if chs:
#         return "the channel switched off by the user is there"
# demorun.run("config", [sc], judge, [os.getcwd()])
#END
