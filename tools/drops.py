"""debug: prints which candidate invariants are dropped, where, and (DROP=substring) the failing query's solver answer.  usage: drops.py spec goal"""
import sys,os; H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[H+'/vcgen',H+'/specs']
import prog,verify,importlib
from verify import *
m=importlib.import_module(sys.argv[1]); P=prog.export(m.FILES); G=m.goals(P) if hasattr(m,'goals') else m.GOALS
g=[g for g in G if sys.argv[2] in g.name][0]; orig=GEval.inv_check; SEEN=set(); sub=os.environ.get('DROP')
def ic(self,info,cands,live,what):
    try: return orig(self,info,cands,live,what)
    except Restart:
        new=[d for d in info.dead if d not in SEEN and d in cands]; print('DROP',what,self.where(),new if len(new)<30 else len(new),flush=True)
        for d in new:
            if sub and sub in d:
                f=z3.simplify(cands[d](self)); print(d,':',str(f)[:int(os.environ.get('W','1200'))]); s=z3.Solver(); s.set('timeout',8000)
                for p in self.pc: s.add(p)
                s.add(Not(f)); r=s.check(); print('  ',r, s.reason_unknown() if r==z3.unknown else '')
                
                import time
                for nm,mk in (('Solver',z3.Solver),('Simple',z3.SimpleSolver),('AUFLIA',lambda: z3.SolverFor('AUFLIA')),('smt',lambda: z3.Tactic('smt').solver())):
                  for par in ({},{'mbqi':False,'auto_config':False},{'random_seed':3}):
                    s=mk(); s.set('timeout',8000)
                    for k,v in par.items():
                        try: s.set(k,v)
                        except Exception as e: print(e)
                    for p in self.pc: s.add(p)
                    s.add(Not(f)); t=time.time(); r=s.check(); print('   ',nm,par,r,round(time.time()-t,2))
                o=z3.SimpleSolver()
                for p in self.pc: o.add(p)
                o.add(Not(f)); open('/tmp/q.smt2','w').write(o.to_smt2())
        SEEN.update(info.dead); raise
GEval.inv_check=ic
r=run_goal(P,g); verify.show(r)
