ID = 'unchanged-interval-runs-once'
PROP = 'P18'
EDITS = [('src/serial_port_driver.cpp', '    CachedCurrentValue = value;\n    CachedErrorText = error;\n    LastControlUpdate = std::chrono::steady_clock::now();\n', '    if (CachedCurrentValue != value || CachedErrorText != error) {\n        LastControlUpdate = std::chrono::steady_clock::now();\n    }\n    CachedCurrentValue = value;\n    CachedErrorText = error;\n')]
NEEDS = 'max_unchanged_interval above zero and a value that stays the same for longer'
BREAKS = 'after the first interval the unchanged value is published after every reading'
DRV = "config"
#DEMO
# import demorun, json, os
# def conf(chs, dev={}, **top):
#     d = {"slave_id": "7", "id": "dev", "name": "Dev", "channels": chs}
#     d.update(dev)
#     c = {"ports": [{"port_type": "serial", "path": "/dev/x", "devices": [d]}]}
#     c.update(top)
#     return json.dumps(c)
# sc = {"id": "x", "files": {}, "conf": conf([{"name": "S", "reg_type": "holding", "address": 5}], max_unchanged_interval=5),
#       "slaves": [[{"sid": 7, "lat": 1000, "mem": [[3, 5, 3]]}]], "dur": 12000000, "maxev": 4000, "acts": []}
# def judge(ev, s):
#     n = len([e for e in ev if e["o"] == "mq" and e["k"] == "v"])
#     if n > 4:
#         return "published %d times in 12 s" % n
# demorun.run("config", [sc], judge, [os.getcwd()])
#END
