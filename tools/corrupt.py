#!/usr/bin/env python3
"""corrupt.py FAM SPEC COUNT [COPIES]: how sensitive is a trace specification?  Records episodes, alters one number, boolean
or list of one recorded event in each copy, and lists how many of the alterations the specification rejects, by event kind
and field (not a registered check).  Fields which are inputs may survive where the altered input has the same answer."""
import sys, os, json, collections, random, re, copy
sys.path.insert(0, "/verif")
import check
fam, spec, count = sys.argv[1], sys.argv[2], int(sys.argv[3])
copies = int(sys.argv[4]) if len(sys.argv) > 4 else 6
R = random.Random(int(os.environ.get("SEED", "7")))
check.PROPS["DEV"] = {}
r = check.Run("DEV", "quick")
check.build(r.e)
ok, files = r.record(dict(fam=fam, spec=spec, quick=count, thorough=count))
eps = [json.loads(l) for f in files if os.path.exists(f) for l in open(f) if l.strip().endswith("}")]

def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in ("op", "alg", "row", "cert", "id"):
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path + ("[]",)
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, (int, bool)):
        yield path

def alter(ev, path):
    x = ev
    last = path[-1]
    for k in path[:-1]:
        x = x[k]
    if last == "[]":
        i = R.randrange(len(x))
        if R.random() < .5:
            del x[i]
            return "drop"
        x.insert(i, copy.deepcopy(x[i]))
        return "dup"
    v = x[last]
    if isinstance(v, bool):
        x[last] = not v
        return "flip"
    d = R.choice([-1, 1, 1, 3])
    if v == 2147483647:
        x[last] = R.randrange(50)
    elif v + d < -1:
        x[last] = v + 1
    else:
        x[last] = v + d
    return "num"

def name(ev, path):
    return (ev["op"], ".".join(str(k) for k in path if not isinstance(k, int)))

muts = []
for e in eps:
    cand = [i for i, ev in enumerate(e["events"]) if list(leaves(ev))]
    for _ in range(copies):
        if not cand:
            break
        d = copy.deepcopy(e)
        i = R.choice(cand)
        by = collections.defaultdict(list)
        for p in leaves(d["events"][i]):
            by[name(d["events"][i], p)].append(p)
        n = R.choice(list(by))
        p = R.choice(by[n])
        before = json.dumps(e["events"][i])
        kind = alter(d["events"][i], p)
        muts.append((n + (kind,), d, i, before))
R.shuffle(muts)
W = r.work
os.makedirs(W + "/m", exist_ok=True)
for f in os.listdir("/verif/spec"):
    if f.endswith(".tla"):
        os.symlink("/verif/spec/" + f, W + "/m/" + f)
open(W + "/m/Sens.tla", "w").write("---- MODULE Sens ----\nEXTENDS %s\nFin == Finished => PrintT(<<\"FIN\", ep>>)\n====\n" % spec)
cfg = re.sub(r"(?m)^CHECK_DEADLOCK.*$|^PROPERT.*$", "", open("/verif/spec/%s.cfg" % spec).read())
open(W + "/m/Sens.cfg", "w").write(cfg + "\nCHECK_DEADLOCK FALSE\nINVARIANT Fin\n")
import subprocess
res = {}
todo = list(range(len(muts)))
aborted = 0
CH = 150
chunks = [todo[i:i + CH] for i in range(0, len(todo), CH)]
def run(chunk, depth=0):
    """the members of the chunk which are accepted"""
    t = W + "/m/t.json"
    open(t, "w").write("".join(json.dumps(muts[i][1]) + "\n" for i in chunk))
    env = dict(os.environ, TRACE=t)
    o = subprocess.run(["java", "-Xmx6g", "-Xss64m", "-cp", "/opt/veriftools/tla/tla2tools.jar:" + check_cp, "tlc2.TLC", "-workers", "6", "-metadir", W + "/m/s%d" % R.randrange(10**9), "-config", "Sens.cfg", "Sens.tla"], cwd=W + "/m", env=env, capture_output=True, text=True).stdout
    fin = {chunk[int(x) - 1] for x in re.findall(r'<<"FIN", (\d+)>>', o)}
    if "No error has been found" in o:
        return fin
    # an evaluation error: the behaviour at fault is rejected, the others are tried again
    eps = re.findall(r"/\\ ep = (\d+)", o)
    if eps and depth < 400:
        k = chunk[int(eps[-1]) - 1]
        return (fin - {k}) | run([i for i in chunk if i != k and i not in fin], depth + 1) if len(chunk) > 1 else set()
    if len(chunk) == 1:
        return set()
    h = len(chunk) // 2
    return run(chunk[:h], depth + 1) | run(chunk[h:], depth + 1)
import glob
check_cp = ":".join(glob.glob("/opt/veriftools/tla/*.jar"))
sys.setrecursionlimit(10000)
acc = set()
for c in chunks:
    acc |= run(c)
tot = collections.Counter(m[0] for m in muts)
sur = collections.Counter(muts[i][0] for i in acc)
ex = {}
for i in acc:
    ex.setdefault(muts[i][0], (muts[i][3], json.dumps(muts[i][1]["events"][muts[i][2]])))
print("altered", len(muts), "rejected", len(muts) - len(acc))
for k in sorted(tot):
    if sur[k]:
        print("  ", k, "survived %d of %d" % (sur[k], tot[k]))
if os.environ.get("SHOW"):
    for k, (a, b) in sorted(ex.items()):
        print(k, "\n    ", a[:400], "\n    ", b[:400])
import shutil; shutil.rmtree(W)
