"""Program database: loads the AST exported by exporter/cxport for each translation unit and merges it."""
import json, os, re, subprocess, hashlib, sys

class Ty:
    __slots__ = ('s','k','w','sg','to','n','tmpl','args','const','rv','ret','params','enum','cls','lam','variadic')
    def __init__(self): 
        for a in self.__slots__: setattr(self, a, None)
    def __repr__(self): return 'Ty(%s)' % self.s
    @property
    def base(self):
        return self.s[6:] if self.s.startswith('const ') else self.s
    def strip_ref(self):
        return self.to if self.k == 'ref' else self

def strip_targs(qn):
    """remove template argument lists from a qualified name"""
    out=[]; d=0; i=0
    while i < len(qn):
        c=qn[i]
        if c=='<' :
            if d==0 and qn[max(0,i-8):i].endswith('operator'):
                # operator< or operator<<
                out.append(c); i+=1
                if i<len(qn) and qn[i]=='<': out.append('<'); i+=1
                continue
            d+=1
        elif c=='>' :
            if d==0: out.append(c)
            else:
                if not (i>0 and qn[i-1]=='-'): d-=1
                i+=1; continue
        elif d==0: out.append(c)
        i+=1
    return ''.join(out)

class Fn:
    def __init__(self, id, d, tu):
        self.id=id; self.d=d; self.tu=tu; self.qn=d['qn']; self.n=d['n']; self.loc=d['loc']
        self.sqn=strip_targs(d['qn'])
    def targs(self):
        out=[]
        for a in self.d.get('args',[]):
            if 't' in a: out.append(self.tu.types[a['t']].s)
            elif 'v' in a: out.append(int(a['v']))
            else: out.append(None)
        return out
    def ret(self): return self.tu.types[self.d['ret']]
    def params(self): return [(p['id'],p['n'],self.tu.types[p['t']]) for p in self.d['params']]
    def rec(self): return self.tu.types[self.d['rec']] if 'rec' in self.d else None
    def __repr__(self): return 'Fn(%s)'%self.id

class TU:
    def __init__(self, path, types): self.path=path; self.types=types; self.name=os.path.basename(path)

class Prog:
    def __init__(self): self.fns={}; self.types={}; self.recs={}; self.tus={}; self.globals={}
    def load(self, path):
        d=json.load(open(path))
        tys=[]; raw=d['types']
        for t in raw:
            s=t['s']
            if s in self.types: tys.append(self.types[s])
            else:
                o=Ty(); o.s=s; self.types[s]=o; tys.append(o); o.k=None
        for t,o in zip(raw,tys):
            if o.k is not None and not (o.k=='rec' and o.args is None and t.get('args')): continue
            o.k=t['k']; o.w=t.get('w'); o.sg=t.get('sg'); o.n=t.get('n'); o.const=t.get('const',False); o.rv=t.get('rv'); o.enum=t.get('enum'); o.cls=t.get('cls'); o.lam=t.get('lambda'); o.variadic=t.get('variadic')
            o.tmpl=t.get('tmpl')
            if 'to' in t: o.to=tys[t['to']]
            if 'ret' in t: o.ret=tys[t['ret']]; o.params=[tys[x] for x in t['params']]
            if 'args' in t: o.args=[tys[a['t']] if 't' in a else (int(a['v']) if 'v' in a else None) for a in t['args']]
        tu=TU(d['tu'],tys); self.tus[tu.name]=tu
        for k,f in d['functions'].items():
            if k not in self.fns: self.fns[k]=Fn(k,f,tu)
            if '@' in k and k.endswith('@'+tu.name): pass
        for k,r in d['records'].items():
            if k in self.recs and (self.recs[k].get('fields') is not None or r.get('fields') is None): continue
            r=dict(r); r['tu']=tu
            if 'bases' in r: r['bases']=[dict(t=tys[b['t']],virtual=b['virtual']) for b in r['bases']]
            if r.get('fields') is not None: r['fields']=[dict(n=f['n'],t=tys[f['t']],id=f['id']) for f in r['fields']]
            self.recs[k]=r
        for g in d['globals']: self.globals[(tu.name,g['id'])]=g
        return tu
    def find(self, sqn, pred=None):
        return [f for f in self.fns.values() if f.sqn==sqn and (pred is None or pred(f))]
    def bases_of(self, rec):
        """transitive base class names (incl. itself)"""
        out=[rec]; i=0
        while i<len(out):
            r=self.recs.get(out[i])
            if r:
                for b in r.get('bases') or []:
                    if b['t'].base not in out: out.append(b['t'].base)
            i+=1
        return out
    def field(self, rec, name):
        r=self.recs.get(rec)
        if r and r.get('fields'):
            for f in r['fields']:
                if f['n']==name: return f
        return None

    def table(self, returnnull):
        """JNI function table built by the current source: {entry name: Fn}"""
        c=getattr(self,'_tbl',None)
        if c is None: c=self._tbl={}
        if returnnull in c: return c[returnnull]
        names=[f['n'] for f in self.recs['JNINativeInterface']['fields']]
        best=None
        def find(n):
            if isinstance(n,dict):
                if n.get('k')=='InitListExpr' and len(n.get('c',[]))>200: return n
                for v in n.values():
                    if isinstance(v,(dict,list)):
                        r=find(v)
                        if r: return r
            elif isinstance(n,list):
                for v in n:
                    r=find(v)
                    if r: return r
        for f in self.fns.values():
            if f.d.get('body') is None: continue
            try: rt=f.ret()
            except Exception: continue
            if rt.base!='JNINativeInterface': continue
            il=find(f.d['body'])
            if not il: continue
            def fnof(n):
                while n is not None and n.get('k') not in('DeclRefExpr',):
                    if n.get('cv') is not None or n.get('k') in('GNUNullExpr','CXXNullPtrLiteralExpr','IntegerLiteral'): return None
                    n=(n.get('c') or [None])[0]
                return self.fns.get(n['fn']['id']) if n is not None and 'fn' in n else None
            t={nm:fnof(x) for nm,x in zip(names,il['c'])}
            ff=t.get('FindClass'); rn=None
            if ff is not None and ff.targs(): rn=bool(ff.targs()[0])
            elif 'ILb1E' in f.id: rn=True
            elif 'ILb0E' in f.id: rn=False
            if rn is None: rn=False
            c[rn]=t
        if returnnull not in c: raise KeyError('JNI function table not found')
        return c[returnnull]
    def slots(self, returnnull):
        t=self.table(returnnull); return list(t.values())

ROOT=os.environ.get('VERIF_REPO','/repo')
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS=['-std=c++14','-w','-I%s/include'%ROOT,'-I%s/src/jnivm/internal'%ROOT,'-DEnableJNIVMGC','-DJNI_DEBUG','-DJNI_RETURN_NON_ZERO','-DJNIVM_FAKE_JNI_SYNTAX=0','-resource-dir','/usr/lib/llvm-18/lib/clang/18']

def build_dir():
    d=os.environ.get('VERIF_BUILD', os.path.join(HERE,'build')); os.makedirs(d,exist_ok=True); return d
def exporter():
    b=os.path.join(build_dir(),'cxport')
    src=os.path.join(HERE,'exporter','cxport.cpp')
    h=hashlib.sha256(open(src,'rb').read()).hexdigest()
    st=b+'.sha'
    if not (os.path.exists(b) and os.path.exists(st) and open(st).read()==h):
        subprocess.check_call(['bash',os.path.join(HERE,'exporter','build.sh'),b+'.tmp%d'%os.getpid()]); os.replace(b+'.tmp%d'%os.getpid(),b); open(st,'w').write(h)
    return b
def export(files, flags=None, std=None, tag='', outdir=None):
    """runs the exporter on each file in parallel (always from the current source); returns Prog"""
    import concurrent.futures as cf, tempfile
    ex=exporter(); outdir=outdir or tempfile.mkdtemp(prefix='cxp')
    fl=list(FLAGS)+(flags or [])
    if std: fl[0]='-std='+std
    def one(f):
        src=f if f.startswith('/') else os.path.join(ROOT,f)
        out=os.path.join(outdir,tag+f.strip('/').replace('/','_')+'.json')
        p=subprocess.run([ex,ROOT,out,src,'--']+fl,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
        if p.returncode!=0 or not os.path.exists(out): raise RuntimeError('export of %s failed:\n%s'%(f,p.stdout[-3000:]))
        return out
    with cf.ThreadPoolExecutor(8) as px: outs=list(px.map(one,files))
    P=Prog()
    for o in outs: P.load(o); os.unlink(o)
    try: os.rmdir(outdir)
    except OSError: pass
    return P
