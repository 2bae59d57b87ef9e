"""P15: deny rules of the Baron VM"""
from common import *
import p13
from p13 import one,VM,ENV
FILES=p13.FILES
JVM='Baron::Jvm'; FLT='Baron::Jvm::denyFilter'
EMPTY=lambda ex: ex.lit(b'')
def part(ex,nm):
    """a component of a query or rule: any string or the null pointer; returns (argument, characters, null)"""
    s=Const(nm,Str); ex.assume(And(nonul(s),slen(s)>=0,(slen(s)==0)==(s==EMPTY(ex)))); z=ex.branch(Const(nm+'_null',B)); return (CSs.null if z else CSs.mk(s,IntVal(0))),(EMPTY(ex) if z else s)
def lax(ex,a,b): e=EMPTY(ex); return Or(a==e,b==e,a==b)
def entry(x):
    """name, signature and class of a rule"""
    so=x.sort(); f=so.accessor(0,1)(x); fs=f.sort(); i={n:k for k,n in enumerate(fs.fnames)}; return so.accessor(0,0)(x),fs.accessor(0,i['signature'])(f),fs.accessor(0,i['classname'])(f)
def match(ex,x,q):
    r=entry(x); return And(*[lax(ex,a,b) for a,b in zip(r,q)])
def rules(ex,fld): return F(ex,JVM,fld,ex.W.V)
def setup(ex):
    W=World(); ex.W=W; W.V=Const('V',I); ex.assume(And(W.V>0,W.V<=ex.alloc)); return W
def nomatch(ex,ent,info,n,index,d):
    """loop template: no rule before the iterator matches the query"""
    out={}
    W=getattr(ex,'W',None); q=W.__dict__.get('query') if W is not None else None
    if q is None: return out
    v=W.rules; so=v.sort(); k=Const('qm',I)
    for k2,g,e in d['ints']: out['no rule before %s matches'%d['name'](k2)]=lambda st,g=g: ForAll([k],Implies(And(k>=0,k<g(st)),Not(match(ex,Select(so.arr(v),k),q))),patterns=[Select(so.arr(v),k)])
    return out
def g_denied(fn,fld):
    def body(ex):
        W=setup(ex); n,qn=part(ex,'qname'); s,qs=part(ex,'qsig'); c,qc=part(ex,'qclass'); W.query=(qn,qs,qc); lv=rules(ex,fld); v=lv.load(ex); so=v.sort(); W.rules=v; ex.assume(And(so.len(v)>=0,so.len(v)<=1<<40)); s0=ex.old()
        r=noexc(ex,lambda: ex.invoke(one(ex,JVM+'::'+fn),recobj(ex,JVM,W.V),[n,s,c])); ex.reach(); r=ex.truth(r); i=Const('i',I)
        ex.post(Implies(Not(r),Not(And(i>=0,i<so.len(v),match(ex,Select(so.arr(v),i),W.query)))),'not denied only if no rule matches'); k=Const('ke',I)
        ex.post(Implies(r,Exists([k],And(k>=0,k<so.len(v),match(ex,Select(so.arr(v),k),W.query)))),'denied only if a rule matches'); unchanged(ex,s0)
    return Goal(fn,body,cfg=c(loop_templates=[nomatch]))
def c(**kw): return cfg(value_structs=(FLT,),**kw)
def g_add(fn,fld):
    def body(ex):
        W=setup(ex); n,rn=part(ex,'rname'); s,rs=part(ex,'rsig'); cl,rc=part(ex,'rclass'); lv=rules(ex,fld); v=lv.load(ex); so=v.sort(); s0=ex.old(); ex.assume(And(so.len(v)>=0,so.len(v)<=1<<40))
        noexc(ex,lambda: ex.invoke(one(ex,JVM+'::'+fn),recobj(ex,JVM,W.V),[n,s,cl])); ex.reach(); w=lv.load(ex); i=Const('i',I)
        ex.post(so.len(w)==so.len(v)+1,'one rule is added'); ex.post(Implies(And(i>=0,i<so.len(v)),Select(so.arr(w),i)==Select(so.arr(v),i)),'the other rules stay'); x=Select(so.arr(w),so.len(v)); ex.post(And(*[a==b for a,b in zip(entry(x),(rn,rs,rc))]),'with exactly the components given'); unchanged_except(ex,s0,{fkey(ex,JVM,fld):[W.V]})
    return Goal(fn,body,cfg=c())
def cname(ex,nm): s=Const(nm,Str); ex.assume(And(nonul(s),slen(s)>=0)); return s,CSs.mk(s,IntVal(0))
def g_class(ex):
    W=setup(ex); s,cs=cname(ex,'cname'); lv=rules(ex,'denyClasses'); v=lv.load(ex); so=v.sort(); s0=ex.old(); r=noexc(ex,lambda: ex.invoke(one(ex,JVM+'::isClassDenied'),recobj(ex,JVM,W.V),[cs])); ex.reach(); ex.post(ex.truth(r)==Select(so.dom(v),s),'a class is denied exactly if a rule names it'); unchanged(ex,s0)
def g_addclass(ex):
    W=setup(ex); s,cs=cname(ex,'cname'); lv=rules(ex,'denyClasses'); v=lv.load(ex); so=v.sort(); s0=ex.old(); noexc(ex,lambda: ex.invoke(one(ex,JVM+'::denyClass'),recobj(ex,JVM,W.V),[cs])); ex.reach(); w=lv.load(ex); k=Const('other',Str)
    ex.post(Select(so.dom(w),s),'the class is denied'); ex.post(Implies(k!=s,Select(so.dom(w),k)==Select(so.dom(v),k)),'no other class is affected'); unchanged_except(ex,s0,{fkey(ex,JVM,'denyClasses'):[W.V]})
# ---- lookups
DC=Function('class_denied',I,Str,B); DM=Function('method_denied',I,Str,Str,Str,B); DF=Function('field_denied',I,Str,Str,Str,B)
LOOK={}
def look(kind,create,args):
    k=(kind,create)+tuple(str(a.sort()) for a in args)
    if k not in LOOK: LOOK[k]=Function('lookup_%s_%s'%(kind,'create' if create else 'find'),*[a.sort() for a in args],I)
    return LOOK[k](*args)
def chars(ex,v):
    """the characters of a component, null and empty being the same"""
    v=ex.val(v) if isinstance(v,LV) else v
    if v.sort()==Str: return v
    if ex.branch(CSs.is_null(v)): return EMPTY(ex)
    ex.oblige(CSs.o(v)==0,'post','the component is passed from its first character'); return z3.simplify(CSs.s(v))
class Denied:
    """isClassDenied / isMethodDenied / isFieldDenied (proved): depends on the rules and the characters of the components only"""
    def __init__(s,f): s.f=f
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        ex.used_contracts.add(fn['qn']); V=this.ref if isinstance(this,Rec) else this.load(ex) if isinstance(this,LV) else this; a=[chars(ex,x) for x in args]; ex.oblige(V==ex.W.V,'precondition','the rules of the VM of the environment are consulted'); return s.f(V,*a)
def lookup(ex,kind,create,args):
    """a lookup by the built-in functions: finding never creates; creating finds what exists"""
    a=[]
    for x in args:
        x=x.load(ex) if isinstance(x,LV) else x.ref if isinstance(x,Rec) else x
        if z3.is_expr(x) and x.sort()==CSs: ex.oblige(And(Not(CSs.is_null(x)),CSs.o(x)==0),'post','the name asked for is passed on'); x=z3.simplify(CSs.s(x))
        a.append(x)
    f=look(kind,False,a); c=look(kind,True,a); ex.assume(And(f>=0,f<=ex.alloc,c>0,Implies(f!=0,c==f))); ex.W.ev.append((kind,create,tuple(a))); ex.trust('lookup through the built-in tables: the null-returning one finds what exists and creates nothing, the creating one finds what exists and never fails (P08 for members, P09 for classes)')
    return c if create else f
def template_call(ex,n,rn,field,f,args): return lookup(ex,field,not rn,args)
class Find:
    """InternalFindClass(ENV*, name, returnZero)"""
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        ex.used_contracts.add('jnivm::InternalFindClass'); a=args[0]; a=a.ref if isinstance(a,Rec) else a; z=args[2] if len(args)>2 else BoolVal(False)
        return lookup(ex,'class',not ex.branch(ex.truth(z)),[a,args[1]])
def cl():
    k=c(template_call=template_call,stdfunction=p13.call_hook,loop_templates=[p13.folds]); k['contracts'].update({JVM+'::isClassDenied':Denied(DC),JVM+'::isMethodDenied':Denied(DM),JVM+'::isFieldDenied':Denied(DF),'jnivm::InternalFindClass':Find()}); return k
def check(ex,r,kind,a,denied):
    W=ex.W; f=look(kind,False,a); cr=look(kind,True,a); ex.assume(And(f>=0,c_pos(cr),Implies(f!=0,cr==f)))
    ex.post(r==If(f!=0,f,If(denied,IntVal(0),cr)),'what exists is found; what does not is created unless a rule denies it')
    for k,create,b in W.ev:
        if create: ex.post(BoolVal(k==kind),'only what was asked for is created'); ex.post(Or(Not(denied),f!=0),'a denied lookup creates nothing'); ex.post(And(*[x==y for x,y in zip(a,b)]) if len(a)==len(b) else BoolVal(False),'only what was asked for is created')
def c_pos(x): return x>0
def g_lookup(nm):
    def body(ex):
        W=world(ex); W.ev=[]; ctx=p13.context(ex); c0=ctx.load(ex); ex.assume(c0==0); f=one(ex,JVM+'::CreateEnv'); hk=get(ex,VM,'jnienvhooks',W.V); i=Const('i',I); ex.assume(ForAll([i],Implies(And(i>=0,i<hk.sort().len(hk)),Select(hk.sort().arr(hk),i)!=0),patterns=[Select(hk.sort().arr(hk),i)]))
        e=noexc(ex,lambda: ex.invoke(f,W.V,[])); e=e.load(ex) if isinstance(e,LV) else e; e=e.ref if isinstance(e,Rec) else e; tb=HeapLV('cell.JNINativeInterface',ex.subref(ENV,'ninterface',e),fieldty(ex,ENV,'ninterface'),TBL).load(ex); names=[x['n'] for x in ex.P.recs['JNINativeInterface']['fields']]
        x=ex.fn_of(z3.simplify(Select(tb,IntVal(names.index(nm)))))
        s,cs=cname(ex,'cname')
        if nm=='FindClass': args=[W.env,cs]; a=[W.env,s]
        else:
            h,cr=handle_to(ex,'cls',CLS,False); g,gs=cname(ex,'csig'); args=[W.env,h,cs,gs]; a=[W.env,h,s,g]; pfx=get(ex,CLS,'nativeprefix',cr); ex.assume(slen(pfx)>=0)
        s0=ex.old(); r=noexc(ex,lambda: ex.invoke_lambda(x,args) if isinstance(x,Lambda) else ex.invoke(x.fn,None,args)); ex.reach(); r=r.ref if isinstance(r,Rec) else r
        if nm=='FindClass': den=DC(W.V,s)
        else: den=(DM if 'Method' in nm else DF)(W.V,s,g,If(cr==0,EMPTY(ex),pfx))
        check(ex,r,nm,a,den); unchanged_except(ex,s0,{},objects=True)
    return Goal('lookup '+nm,body,cfg=cl())
def g_findclass(ex):
    W=p13.setup(ex); ex.assume(cur(ex,W)!=0); W.ev=[]; s,cs=cname(ex,'cname'); f=one(ex,JVM+'::findClass'); r=noexc(ex,lambda: ex.invoke(f,recobj(ex,JVM,W.V),[cs])); ex.reach(); check(ex,r,'class',[cur(ex,W),s],DC(W.V,s))
def cur(ex,W): return p13.cur(W,W.m)
NAMES=['FindClass','GetMethodID','GetStaticMethodID','GetFieldID','GetStaticFieldID']
GOALS=[g_denied('isMethodDenied','denyMethods'),g_denied('isFieldDenied','denyFields'),g_add('denyMethod','denyMethods'),g_add('denyField','denyFields'),Goal('isClassDenied',g_class,cfg=c()),Goal('denyClass',g_addclass,cfg=c())]+[g_lookup(n) for n in NAMES]+[Goal('Jvm::findClass',g_findclass,cfg=cl())]
