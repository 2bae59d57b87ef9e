"""Goals (functions under contract), the infer-then-check driver and the parallel runner."""
import time, os, sys, traceback, multiprocessing as mp, collections
import z3
from z3 import *
from vals import *
from eval import Eval
import stl as _stl

class Goal:
    """one function under contract.  body(ex): creates the symbolic pre-state, calls the function and states the postcondition
    with ex.post(...).  The engine explores every path; loops by inferred inductive invariants, callees inlined or by contract."""
    def __init__(self, name, body, files=None, cfg=None, deadline=150, fns=None, std=None, bounded=None):
        self.name=name; self.body=body; self.cfg=cfg or {}; self.deadline=deadline; self.fns=fns or []; self.bounded=bounded

class GEval(Eval):
    posts=0; reached=0
    def post(self, f, name):
        self.posts+=1
        self.oblige(f,'post',name,assume=False)
    def reach(self):
        """vacuity guard: this point is reachable"""
        if self.mode=='check':
            t=self.solver.check()
            if t!=z3.unsat: self.reached+=1
    def old(self): return dict(self.store)

def run_goal(prog, goal, tmo=None):
    t0=time.time()
    cfg=dict(stl=_stl.STL); cfg.update(goal.cfg)
    if callable(cfg.get('setup')): cfg['setup'](prog,cfg)
    ex=GEval(prog,cfg); ex.deadline=t0+goal.deadline
    if tmo: ex.tmo=tmo
    res=dict(name=goal.name,status='proved',failures=[],fns=list(goal.fns),reason='',bounded=goal.bounded)
    try:
        ex.mode='infer'; rounds=0
        while True:
            ex.changed=False; ex.stats['paths']=0
            try: ex.run_paths(lambda: goal.body(ex))
            except Restart: pass
            rounds+=1
            if not ex.changed: break
            if rounds>400: raise Unsupported('invariant inference does not stabilise')
        ex.mode='check'; ex.stats['paths']=0; ex.posts=0
        ex.run_paths(lambda: goal.body(ex))
        res['rounds']=rounds
    except Restart: res['status']='undecided'; res['reason']='restart during check'
    except Unsupported as e:
        res['status']='undecided'; res['reason']='unsupported: %s (%s)'%(e,ex.where())
        res['reason_tb']=traceback.format_exc()[-4500:]
    except TimeoutError: res['status']='undecided'; res['reason']='time limit of %ss'%goal.deadline
    except CppThrow as e: res['status']='failed'; res['failures'].append(dict(name='exception %s escapes the contract'%e.ty,kind='throw',loc=ex.where(),status='refuted',detail=''))
    except RecursionError: res['status']='undecided'; res['reason']='recursion limit'
    except MemoryError: raise
    except Exception as e:
        res['status']='undecided'; res['reason']='engine: %s %s (%s)'%(type(e).__name__,e,ex.where()); res['reason_tb']=traceback.format_exc()[-4500:]
    obs=[o for o in ex.order]
    for o in obs:
        if o.status=='refuted': res['failures'].append(dict(name=o.name,kind=o.kind,loc=o.loc,status=o.status,detail=o.detail))
    unk=[o for o in obs if o.status=='unknown']
    if res['failures']: res['status']='failed'
    elif unk and res['status']=='proved':
        res['status']='undecided'; res['reason']='%d obligations unknown, first: %s at %s'%(len(unk),unk[0].name,unk[0].loc)
    if res['status']=='proved' and not ex.reached: res['status']='undecided'; res['reason']='vacuous: no path reaches the postcondition'
    res['unknown']=[dict(name=o.name,kind=o.kind,loc=o.loc,detail=o.detail) for o in unk]
    kinds=collections.Counter(o.kind for o in obs if o.status=='proved'); be=collections.Counter(o.backend for o in obs if o.status=='proved')
    res.update(obligations=len(obs),discharged=sum(kinds.values()),kinds=dict(kinds),backends=dict(be),paths=ex.stats['paths'],queries=ex.stats['queries'],solver_s=round(ex.stats['time'],2),wall_s=round(time.time()-t0,2),
        inlined=sorted(ex.inlined),contracts=sorted(ex.used_contracts),trusted=sorted(ex.trusted),loops=[dict(loop=str(k[1]),where=k[0][-1],invariants=sorted(getattr(v,'final',[]))) for k,v in ex.loops.items()])
    return res

_G=None
RETRY_TMO=40000
def _work(i):
    sys.setrecursionlimit(20000)
    prog,goals,tmo=_G
    try: return i,run_goal(prog,goals[i],tmo)
    except MemoryError: return i,dict(name=goals[i].name,status='undecided',reason='memory',failures=[],obligations=0,discharged=0,kinds={},backends={},fns=goals[i].fns,trusted=[],inlined=[],contracts=[],solver_s=0,wall_s=0,paths=0,queries=0,unknown=[],loops=[],bounded=None)
def run_goals(prog, goals, jobs=8, verbose=False, tmo=None):
    global _G
    _G=(prog,goals,tmo); out=[None]*len(goals)
    if not goals: return out
    ctx=mp.get_context('fork')
    with ctx.Pool(min(jobs,len(goals)),maxtasksperchild=1) as p:
        for i,r in p.imap_unordered(_work,range(len(goals)),chunksize=1):
            out[i]=r
            if verbose: show(r)
    return out
def show(r):
    print('%-9s %-60s %d/%d obligations, %d paths, %.1fs (solver %.1fs)'%(r['status'],r['name'],r['discharged'],r['obligations'],r['paths'],r['wall_s'],r['solver_s']))
    if r['status']!='proved':
        print('    ',r['reason'])
        if os.environ.get('TB'): print('\n'.join(l for l in r.get('reason_tb','').splitlines()[-24:] if 'File' in l or not l.startswith('    ^'))[-int(os.environ['TB']):])
        for f in r['failures'][:4]+r['unknown'][:3]: print('     ',f.get('status','unknown'),f['kind'],f['name'],'@',f['loc'],'\n        ',f['detail'][:700])
    sys.stdout.flush()
