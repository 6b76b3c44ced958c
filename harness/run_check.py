import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import engine, props

def main():
    prop = sys.argv[1]
    c = engine.Check(prop, getattr(getattr(props, prop), "level", "model_checking"))
    try:
        getattr(props, prop)(c)
    except engine.MachineryError as ex:
        if c.fails: return c.finish()
        print("ERROR of the machinery: %s" % ex); return 2
    except Exception:
        traceback.print_exc()
        if c.fails: return c.finish()
        return 2
    return c.finish()
sys.exit(main())
