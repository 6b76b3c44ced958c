# only.py PROP part...: run only the named parts
import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'harness')); sys.dont_write_bytecode=True
import engine, props
parts=sys.argv[2:]
for m in ("code_to_spec","spec_to_code","replay","worlds"):
    f=getattr(engine.Check,m,None)
    if f:
        def w(self,part,*a,_f=f,**k):
            if part in parts: return _f(self,part,*a,**k)
        setattr(engine.Check,m,w)
c=engine.Check(sys.argv[1],"model_checking"); getattr(props,sys.argv[1])(c); print(c.finish())
