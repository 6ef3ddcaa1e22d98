#!/usr/bin/env python3-vt
"""run.py PROPERTY: decide one property of /repo's working tree by static analysis."""
import sys, os, importlib, traceback
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'lib'))
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import driver
def main():
    prop=sys.argv[1]
    mod=importlib.import_module('c_'+prop.lower())
    try:
        m=driver.load_module()
        c=mod.run(m)
        rc=c.finish()
    except driver.CheckError as e:
        print('CHECK-ERROR %s: %s'%(prop,e)); sys.exit(3)
    except Exception:
        traceback.print_exc(); print('CHECK-ERROR %s'%prop); sys.exit(3)
    sys.exit(rc)
main()
