ID = "comparisons-group-to-the-right"
PROP = "P19"
DRV = "pure"
EDITS = [("src/expression_evaluator.cpp", "            if (GetPriority((*rootIt)->GetType()) <= GetPriority((*it)->GetType())) {",
          "            if (GetPriority((*rootIt)->GetType()) < GetPriority((*it)->GetType())) {")]
NEEDS = "two operators of one level, whose grouping makes a difference, in one condition"
BREAKS = "a==b==c is taken for a==(b==c)"
#DEMO
# import demorun
# cases = [("a==2==0", 0), ("a==1==1", 1), ("a>1>0", 1), ("3>a>0", 1), ("5>3>1", 0), ("a!=b!=0", 1), ("a==2&&b==3||a==7", 0), ("a==1||b==5&&a==3", 1)]
# vals = [[[ord("a")], 1], [[ord("b")], 5]]
# def py(s):
#     return None
# exp = {"a==2==0": 1, "a==1==1": 1, "a>1>0": 0, "3>a>0": 1, "5>3>1": 0, "a!=b!=0": 1, "a==2&&b==3||a==7": 0, "a==1||b==5&&a==3": 1}
# items = [{"o": "expr", "s": [ord(c) for c in s], "ps": [vals]} for s in exp]
# def judge(ev, s):
#     for e in ev:
#         if e["o"] == "expr":
#             t = "".join(map(chr, e["s"]))
#             if not e["ok"] or bool(e["vs"][0]) != bool(exp[t]):
#                 return "%s is %s" % (t, e.get("vs"))
# demorun.run("pure", [{"id": "x", "items": items}], judge)
#END
