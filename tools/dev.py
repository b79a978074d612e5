#!/usr/bin/env python3
"""dev.py FAM SPEC COUNT [tier]: record, validate, list the kinds of rejected events (not a registered check)"""
import sys, os, json, collections
sys.path.insert(0, "/verif")
import check
fam, spec, count = sys.argv[1], sys.argv[2], int(sys.argv[3])
tier = sys.argv[4] if len(sys.argv) > 4 else "quick"
check.PROPS["DEV"] = {}
r = check.Run("DEV", tier)
check.build(r.e)
st = dict(fam=fam, spec=spec, quick=count, thorough=count)
ok, files = r.record(st)
print("recorded", ok)
lines = [l for f in files if os.path.exists(f) for l in open(f) if l.strip().endswith("}")]
panics = collections.Counter()
for l in lines:
    e = json.loads(l)
    for ev in e["events"]:
        if ev["op"] == "panic":
            panics[(ev["at"], ev["msg"][:100])] += 1
for k, v in panics.items():
    print("PANIC", v, k)
bad = collections.Counter(); ex = {}
for rnd in range(int(os.environ.get("ROUNDS", "6"))):
    tr = r.work + "/t.json"
    open(tr, "w").write("".join(x if x.endswith("\n") else x + "\n" for x in lines))
    out = r.tlc(spec + ".tla", spec + ".cfg", {"TRACE": tr})
    if "No error has been found" in out:
        print("ACCEPTED", len(lines), r.stats(out)); break
    import re
    eps = re.findall(r"/\\ ep = (\d+)", out); ls = re.findall(r"/\\ l = (\d+)", out)
    if not eps:
        print(out[-3000:]); break
    k, l = int(eps[-1]), int(ls[-1])
    e = json.loads(lines[k-1])
    ev = e["events"][l-1]
    key = (ev.get("op"), str(ev.get("alg") or ev.get("kind") or "") + (ev["at"] if isinstance(ev.get("at"), str) else ""))
    bad[key] += 1
    if key not in ex or len(lines[k-1]) < ex[key][0]:
        ex[key] = (len(lines[k-1]), e["id"], l, json.dumps(ev)[:300], None if "Deadlock" in out else out[out.find("Error"):][:600])
    # drop all episodes' events of this key
    nl = []
    for x in lines:
        d = json.loads(x)
        d["events"] = [v for v in d["events"] if (v.get("op"), str(v.get("alg") or v.get("kind") or "") + (v["at"] if isinstance(v.get("at"), str) else "")) != key]
        nl.append(json.dumps(d) + "\n")
    lines = nl
for k in bad:
    print(k, ex[k])
import shutil; shutil.rmtree(r.work)
