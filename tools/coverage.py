import glob,os,sys,collections,re
cov=collections.defaultdict(dict)
def add(f,key):
    for l in open(f,errors='replace'):
        p=l.rstrip('\n').split(':',2)
        if len(p)<3: continue
        c=p[0].strip()
        try: n=int(p[1])
        except: continue
        if n==0: continue
        if c=='-' or not (c[:1].isdigit() or c[:1]=='#'): continue
        hit=not c.startswith('#')
        cov[key][n]=cov[key].get(n,False) or hit
for f in glob.glob('/tmp/cov/g/src#*.gcov'): add(f,os.path.basename(f)[4:-5].replace('#','/'))
for f in glob.glob('/tmp/cov/h/#repo#engine#src#*.gcov'): add(f,os.path.basename(f)[17:-5].replace('#','/'))
tot=0;hit=0
for k in sorted(cov,key=lambda k:-sum(1 for v in cov[k].values() if not v)):
    d=cov[k]; m=sorted(n for n in d if not d[n]); tot+=len(d);hit+=len(d)-len(m)
    if not m: continue
    src=open('/repo/engine/src/'+k).read().split('\n')
    # functions fully uncovered
    fns=[]
    cur=None
    for i,l in enumerate(src,1):
        mm=re.match(r'\s*(pub(\([^)]*\))? )?(unsafe )?fn (\w+)',l)
        if mm: cur=[mm.group(4),i,0,0]; fns.append(cur)
        if cur and i in d:
            cur[2]+=1
            if not d[i]: cur[3]+=1
    print(f"{len(m)}/{len(d)} {k}: "+", ".join(f"{f[0]}@{f[1]}" + ("" if f[2]==f[3] else f"({f[3]}/{f[2]})") for f in fns if f[3]))
print(hit,tot)
