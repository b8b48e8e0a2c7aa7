"""Renames every private item of each crate at once, consistently, in a copy of the tree: no check may raise an alarm (analyzer/iba/names.py gives the names back)."""
import json,os,re,subprocess,shutil,sys
R="/tmp/rna"
shutil.rmtree(R,ignore_errors=True); os.makedirs(R)
subprocess.run("git -C /repo archive HEAD | tar x -C "+R,shell=True,check=True)
inv=json.load(open("/verif/analyzer/names.json"))
per=len(sys.argv)>2
sk=True
for c,d in inv.items():
    if len(sys.argv)>1 and c not in sys.argv[1].split(","): continue
    names={}
    dirs=set()
    for kind,place,name,shape,_ in d["items"]:
        names[name]=kind; dirs.add(place.split("::")[0].split("/src/")[0])
    for k,fs in d["fields"].items():
        dirs.add(k.split("::")[0].split("/src/")[0])
        for n,ty,p in fs:
            if p and not n.startswith("__"): names.setdefault(n,"field")
    names.pop('',None); names.pop(None,None)
    if not names: continue
    bad={"new","main","default","len","value","from","into","insert","get","remove"}
    names={n:k for n,k in names.items() if n and n not in bad and not n.isdigit()}
    if not names: continue
    files=[]
    for dd in dirs:
        if dd.endswith(".rs"): files.append(os.path.join(R,dd)); continue
        for a,b,fs in os.walk(os.path.join(R,dd)):
            files+=[os.path.join(a,f) for f in fs if f.endswith(".rs")]
    base={f:open(f).read() for f in files}
    for grp in ([[n] for n in names] if per else [list(names)]):
        def sub(m):
            n=m.group(1); k=names[n]
            return n+("X" if k in("struct","enum","trait") else "_X" if k=="const" else "_x")
        rx=re.compile(r'(?<![\w"])(%s)\b(?!")'%"|".join(map(re.escape,grp)))
        for f,t in base.items(): open(f,"w").write(rx.sub(sub,t))
        o=subprocess.run(["python3","check.py","all","--no-evidence","--root",R],cwd="/verif/analyzer",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True).stdout
        v=sorted(set(re.findall(r"VIOLATION property=(\w+)",o))); u=re.findall(r"^(\w+): .* ([1-9]\d*) undecided",o,re.M)
        print(c,grp if per else len(names),"ALARM" if v else "quiet",v,u if u else "",flush=True)
    for f,t in base.items(): open(f,"w").write(t)
