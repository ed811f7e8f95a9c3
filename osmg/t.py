"""debug helper: python3 -m osmg.t <path substring> [effects]"""
import sys, time
from . import facts
from .engine import *
from .terms import *
def prog():
    return Program(facts.load())
if __name__=='__main__':
    P=prog()
    for f in P.fns.values():
        if sys.argv[1]==f['path'] or (sys.argv[1] in f['path'] and len(sys.argv)<3):
            t=time.time()
            E=Engine(P)
            print('==',f['path'])
            try: r=E.run(f)
            except Budget: print('BUDGET'); continue
            print('ret',r, '%.2fs'%(time.time()-t), 'steps',E.steps, 'eff',len(E.eff), E.notes)
            if len(sys.argv)>2:
                for e in E.eff: print('  ',e)
