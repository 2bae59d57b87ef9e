import sys,importlib,os,time
sys.path[:0]=[os.path.join(os.path.dirname(os.path.abspath(__file__)),d) for d in('vcgen','specs')]
import prog,verify
m=importlib.import_module(sys.argv[1]); t=time.time()
P=prog.export(m.FILES); print('export %.1fs'%(time.time()-t))
G=m.goals(P) if hasattr(m,'goals') else m.GOALS
gs=[g for g in G if len(sys.argv)<3 or any(a in g.name for a in sys.argv[2:])]
import io,contextlib
n=0
for r in (verify.run_goals(P,gs,verbose=False)):
    b=io.StringIO()
    with contextlib.redirect_stdout(b): verify.show(r)
    t=b.getvalue()
    if r['status']!='proved': n+=1
    print(t.rstrip()[:int(os.environ.get('W','1500'))] if r['status']!='proved' and n<=int(os.environ.get('N','3')) else t.splitlines()[0]+('' if r['status']=='proved' else '  '+r['reason'][:150]))

