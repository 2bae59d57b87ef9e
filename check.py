#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree.
   Proof: clang AST of the current sources -> obligations per function -> z3/cvc5 (vcgen/), specifications in specs/<id>.py.
   Replay / bounded stand-in: drivers/<id>.cpp compiled together with the current library sources (ASan)."""
import sys, os, json, time, subprocess, importlib, threading, hashlib, tempfile, shutil
HERE=os.path.dirname(os.path.abspath(__file__)); VENV='/opt/veriftools/pyvenv/bin/python3'
if 'z3' not in sys.modules:
    try: import z3
    except ImportError:
        py=shutil.which('python3-vt') or VENV
        os.execv(py,[py]+sys.argv)
sys.path[:0]=[os.path.join(HERE,'vcgen'),os.path.join(HERE,'specs')]
REPO=os.environ.get('VERIF_REPO','/repo'); BUILD=os.environ.get('VERIF_BUILD',os.path.join(HERE,'build'))
TIER='thorough' if os.environ.get('VERIF_TIER')=='thorough' else 'quick'; SEED=int(os.environ.get('VERIF_SEED','1') or 1)
DEF='-DEnableJNIVMGC -DJNI_DEBUG -DJNI_RETURN_NON_ZERO -DJNIVM_FAKE_JNI_SYNTAX=0'.split()
CXX=['clang++','-std=c++17','-g1','-O0','-fsanitize=address','-fno-omit-frame-pointer','-D_GLIBCXX_ASSERTIONS','-w']+DEF
def glob(d,suf='.cpp'):
    p=os.path.join(REPO,d); return sorted(os.path.join(p,f) for f in os.listdir(p) if f.endswith(suf)) if os.path.isdir(p) else []
class Driver(threading.Thread):
    """compile and run drivers/<pid>.cpp against the library sources; result: status ok/fail/nobuild"""
    def __init__(s,pid): super().__init__(); s.pid=pid; s.status='none'; s.out=''; s.evals=0; s.fails=[]; s.samples=[]; s.wall=0
    def run(s):
        t=time.time()
        try: s.work()
        except Exception as e: s.status='nobuild'; s.out='driver infrastructure: %r'%e
        s.wall=round(time.time()-t,2)
    def work(s):
        src=os.path.join(HERE,'drivers',s.pid+'.cpp')
        if not os.path.exists(src): return
        d=tempfile.mkdtemp(prefix='drv-%s-'%s.pid,dir=BUILD); s.dir=d
        try:
            files=glob('src/jnivm')+glob('src/jnivm/internal')+glob('src/jnivm/internal/codegen')+glob('src/fake-jni')+glob('src/baron')+[src]
            inc=['-I'+os.path.join(REPO,'include'),'-I'+os.path.join(REPO,'src/jnivm'),'-I'+os.path.join(REPO,'src'),'-I'+os.path.join(HERE,'drivers')]
            from concurrent.futures import ThreadPoolExecutor
            def cc(i): return subprocess.run(CXX+inc+['-c',files[i],'-o',os.path.join(d,'%d.o'%i)],capture_output=True,text=True,errors='replace')
            with ThreadPoolExecutor(8) as ex: rs=list(ex.map(cc,range(len(files))))
            bad=[r for r in rs if r.returncode]
            if bad: s.status='nobuild'; s.out=bad[0].stderr[:4000]; return
            exe=os.path.join(d,'driver')
            r=subprocess.run(['clang++','-fsanitize=address','-rdynamic']+[os.path.join(d,'%d.o'%i) for i in range(len(files))]+['-o',exe,'-ldl','-lpthread'],capture_output=True,text=True,errors='replace')
            if r.returncode: s.status='nobuild'; s.out=r.stderr[:4000]; return
            pre=src[:-4]+'.sh'
            if os.path.exists(pre):
                r=subprocess.run(['bash',pre,d],capture_output=True,text=True,errors='replace',env=dict(os.environ,REPO=REPO))
                if r.returncode: s.status='nobuild'; s.out=r.stdout+r.stderr; return
            env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1',DRV_DIR=d)
            lim=600 if TIER=='thorough' else 300
            try:
                r=subprocess.run([exe,str(SEED),TIER],capture_output=True,text=True,errors='replace',timeout=lim,env=env,cwd=d); out=r.stdout; err=r.stderr; rc=r.returncode
            except subprocess.TimeoutExpired as e:
                out=(e.stdout or b''); out=out.decode(errors='replace') if isinstance(out,bytes) else out; err='driver did not terminate within %ds'%lim; rc=-1
            s.out=out[-20000:]+'\n--- stderr\n'+err[:12000]
            for l in out.splitlines():
                if l.startswith('FAIL '): s.fails.append(l[5:])
                elif l.startswith('SAMPLE '): s.samples.append(l[7:])
                elif l.startswith('EVALS '): s.evals=int(l.split()[1])
            if rc and not s.fails: s.fails.append('driver ended with %s: %s'%(rc,(err.strip().splitlines() or ['?'])[0][:300]))
            s.status='fail' if rc or s.fails else 'ok'
        finally: shutil.rmtree(d,ignore_errors=True)
def known(pid):
    """known-findings file: lines 'property=<id> match=<substring of the failing case> :: description' (fixed: entries suppress nothing)"""
    out=[]
    try:
        for l in open(os.path.join(HERE,'KNOWN_FINDINGS')):
            l=l.strip()
            if l.startswith('finding: property=%s '%pid):
                m,_,desc=l.partition(' match=')[2].partition(' :: '); out.append((m,desc))
    except FileNotFoundError: pass
    return out
def main(pid):
    t0=time.time(); os.makedirs(BUILD,exist_ok=True); os.makedirs(os.path.join(BUILD,'replay'),exist_ok=True); os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    drv=Driver(pid); drv.start()
    import prog, verify
    engine_err=''; results=[]; P=None; m=importlib.import_module(pid.lower())
    try:
        P=prog.export(m.FILES)
        G=m.goals(P) if hasattr(m,'goals') else list(m.GOALS)
        if TIER=='thorough' and hasattr(m,'thorough'): G=G+m.thorough(P)
    except Exception as e: engine_err='%s: %s'%(type(e).__name__,str(e)[:2000]); G=[]
    bigt=TIER=='thorough'; budget=780-(time.time()-t0)
    if G:
        for g in G: g.deadline=min(g.deadline*(3 if bigt else 1),480)
        results=verify.run_goals(P,G,jobs=8)
        # unknown (neither discharged nor refuted): once more with a larger solver budget
        again=[i for i,r in enumerate(results) if r['status']=='undecided' and r['unknown']]
        if again and time.time()-t0<420 and not(drv.status=='fail' and not drv.is_alive()):
            for i in again: G[i].deadline=min(300,max(60,800-(time.time()-t0)-60))
            rr=verify.run_goals(P,[G[i] for i in again],jobs=8,tmo=verify.RETRY_TMO)
            for i,r in zip(again,rr):
                r['retried']=True
                if r['status']!='undecided' or r['unknown']: results[i]=r
    drv.join()
    kf=known(pid); kfused=set()
    # ---- verdict
    failed=[r for r in results if r['status']=='failed']; und=[r for r in results if r['status']=='undecided']
    unknown=[r for r in und if r['unknown']]; unsup=[r for r in und if not r['unknown']]
    def listed(text):
        for mm,desc in kf:
            if mm and mm in text: kfused.add(desc); return True
        return False
    dfails=[f for f in drv.fails if not listed(f)]
    pf=[]
    for r in failed+unknown:
        for f in (r['failures'] or r['unknown']):
            if not listed('%s / %s'%(r['name'],f['name'])): pf.append((r,f))
    violations=[]
    if dfails: violations.append(('driver',dfails))
    if pf: violations.append(('obligation',['%s: %s (%s) at %s [%s]'%(r['name'],f['name'],f['kind'],f['loc'],f.get('status','unknown')) for r,f in pf]))
    ob=sum(r['obligations'] for r in results); di=sum(r['discharged'] for r in results)
    proved=[r for r in results if r['status']=='proved']
    be={}
    for r in results:
        for k,v in r['backends'].items(): be[k]=be.get(k,0)+v
    fns=sorted({f for r in results for f in r['fns']}|{c for r in results for c in r['inlined']})
    assumptions=sorted({t for r in results for t in r['trusted']})
    cov=dict(obligations=ob,discharged=di,checker_cmd='python3-vt /verif/check.py %s'%pid,
        trusted_base=['clang 18 front end (AST)','/verif/exporter (AST export)','/verif/vcgen (symbolic verification-condition generator and libstdc++ models)','z3 '+__import__('z3').get_version_string(),'cvc5 1.1.2'],
        goals=len(results),goals_proved=len(proved),goals_undecided=[dict(goal=r['name'],reason=r['reason'],deciding='bounded driver') for r in und],
        functions_under_contract=sorted({r['name'] for r in proved}),functions_covered=len(fns),functions=fns[:400],
        contracts_used_at_calls=sorted({c for r in results for c in r['contracts']}),
        obligations_by_backend=be,obligation_kinds={k:sum(r['kinds'].get(k,0) for r in results) for r0 in results for k in r0['kinds']},
        solver_s=round(sum(r['solver_s'] for r in results),2),solver_queries=sum(r['queries'] for r in results),paths=sum(r['paths'] for r in results),
        loops=[dict(goal=r['name'],**l) for r in results for l in r['loops']][:80],
        per_goal=[dict(goal=r['name'],status=r['status'],obligations=r['obligations'],discharged=r['discharged'],wall_s=r['wall_s']) for r in results],
        bounded_standin=dict(label='bounded, not proved',driver='drivers/%s.cpp'%pid,status=drv.status,evaluations=drv.evals,samples=drv.samples,wall_s=drv.wall))
    if getattr(m,'BOUNDED',None): cov['bounded_parts']=m.BOUNDED
    if engine_err: cov['engine_error']=engine_err
    vio=[dict(kind=k,detail=d[:20]) for k,d in violations]
    cov['violation_details']=vio
    if und or engine_err or not results: cov['explanation']='%d of %d goals were discharged deductively; the goals listed under goals_undecided were decided by the bounded driver only (bounded, not proved)'%(len(proved),len(results))
    ev=dict(property=pid,tier=TIER,seed=SEED,level='other' if und or engine_err or not results else 'proof',coverage=cov,assumptions=assumptions,violations=sum(len(d) for k,d in violations),wall_s=round(time.time()-t0,2))
    json.dump(ev,open(os.path.join(HERE,'evidence',pid+'.json'),'w'),indent=1,default=str)
    for d in sorted(kfused): print('KNOWN-FINDING: property=%s %s'%(pid,d))
    print('%s: %d/%d obligations discharged, %d/%d goals proved, driver %s (%d evaluations), %.0fs'%(pid,di,ob,len(proved),len(results),drv.status,drv.evals,time.time()-t0))
    for r in und: print('  undecided: %s: %s'%(r['name'],r['reason'][:300]))
    if violations:
        rp=os.path.join(BUILD,'replay',pid+'.txt')
        with open(rp,'w') as f:
            f.write('property %s\nreproduce: VERIF_SEED=%d VERIF_TIER=%s python3-vt %s/check.py %s\n'%(pid,SEED,TIER,HERE,pid))
            for k,d in violations:
                f.write('\n== %s\n'%('failing inputs on the real code (driver built from the current sources)' if k=='driver' else 'failed obligations'))
                for x in d: f.write('  %s\n'%x)
            for r,x in pf: f.write('\n-- obligation %s of %s (%s)\nat %s\nverifier output:\n%s\n'%(x['name'],r['name'],x.get('status','unknown'),x['loc'],x['detail']))
            f.write('\n== driver status %s\n%s\n'%(drv.status,drv.out))
        for k,d in violations:
            for x in d[:6]: print('  %s: %s'%(k,x[:400]))
        print('VIOLATION property=%s replay=%s%s'%(pid,rp,'' if dfails else ' no-failing-input-found')); return 1
    if (engine_err or not results) and drv.status!='ok': print('no answer: '+engine_err+' / driver: '+drv.out[:1500]); return 2
    if drv.status=='nobuild':
        print('  driver did not build: '+drv.out[:600])
        if not proved: return 2
    return 0
if __name__=='__main__':
    try: rc=main(sys.argv[1])
    except Exception:
        import traceback; traceback.print_exc(); print('no answer: internal error of the check'); rc=2
    sys.stdout.flush(); os._exit(rc)
