import json,sys
for f in sys.argv[1:]:
    d=json.load(open(f)); c=d["case"]
    print("=====",f,d["part"],d["why"]); print(c["src"])
    x=c["expected"]
    if isinstance(x,list): x=dict(x[0],lg=x[1]) if x else {}
    o=c["observed"]
    print("EXP er=%s ln=%s"%(x.get("er"),x.get("ln"))," OBS",o["msg"],"ln",o["ln"])
    for k in ("lg","t","tree","sym"):
        if k in x and x[k]!=o[k]: print(" EXP",k,json.dumps(x[k])[:700]); print(" OBS",k,json.dumps(o[k])[:700])
