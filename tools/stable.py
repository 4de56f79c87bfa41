import json, sys
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
passed = set()
for l in open(sys.argv[1]):
    try: e = json.loads(l)
    except Exception: continue
    if e.get("Action") == "pass" and e.get("Test"):
        passed.add(e["Package"] + "/" + e["Test"])
print("missing:", [n for n in base if n not in passed])
